"""configparser with symbolic option values (tokens in the text of the input file)."""
import configparser as real
import types

from . import npx


def make(env):
    class ConfigParser(real.ConfigParser):
        def read(self, filenames, encoding=None):
            if isinstance(filenames, (str, bytes)):
                filenames = [filenames]
            ok = []
            for f in filenames:
                if str(f) in env.fs:
                    self.read_string(env.fs[str(f)], str(f))
                    ok.append(f)
            return ok

        def read_file(self, f, source=None):
            return super().read_file(f, source)

        def getfloat(self, section, option, *, raw=False, vars=None, fallback=real._UNSET, **k):
            return self._get_conv(section, option, npx.to_float, raw=raw, vars=vars, fallback=fallback, **k)

        def getint(self, section, option, *, raw=False, vars=None, fallback=real._UNSET, **k):
            return self._get_conv(section, option, npx.to_int, raw=raw, vars=vars, fallback=fallback, **k)

    m = types.ModuleType("configparser")
    m.__dict__.update({k: v for k, v in vars(real).items() if not k.startswith("__")})
    m.ConfigParser = ConfigParser

    class RawConfigParser(ConfigParser):
        _DEFAULT_INTERPOLATION = real.Interpolation()

    m.RawConfigParser = RawConfigParser
    return m
