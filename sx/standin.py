"""Stand-ins for the helper submodule (bdld/helpers is an empty git submodule in this tree).

Written against the way bdld calls them; used by the symbolic and the concrete environment.
"""


class PlumedHeader:
    def __init__(self, fields=None, constants=None, delim="#!"):
        self.fields = list(fields) if fields is not None else []
        self.constants = dict(constants) if constants is not None else {}
        self.comment_delimiter = delim

    def __str__(self):
        lines = [" ".join([self.comment_delimiter, "FIELDS"] + [str(f) for f in self.fields])]
        for k, v in self.constants.items():
            lines.append(" ".join([self.comment_delimiter, "SET", str(k), str(v)]))
        return "\n".join(lines)


def make_ordinal(n):
    return "%sth" % (n,)


def make_misc(open_, exists, rename):
    def backup_if_exists(name):
        if exists(name):
            i = 0
            while exists("bck.%d.%s" % (i, name)):
                i += 1
            rename(name, "bck.%d.%s" % (i, name))

    def initialize_file(filename, fields=None, constants=None, overwrite=False):
        if not overwrite:
            backup_if_exists(filename)
        with open_(filename, "w") as f:
            f.write(str(PlumedHeader(fields, constants)) + "\n")

    def write_2d_sliced_to_file(filename, data, nbins, fmt="%.18e", header=""):
        import numpy as np

        fmts = fmt if isinstance(fmt, (list, tuple)) else [fmt] * data.shape[1]
        with open_(filename, "w") as f:
            f.write(header + "\n")
            n = int(nbins[1])
            rows = list(data)
            for i in range(0, len(rows), n):
                for row in rows[i : i + n]:
                    f.write(" ".join(one(ff, v) for ff, v in zip(fmts, row)) + "\n")
                f.write("\n")

    def one(ff, v):
        if type(v).__name__ == "SymReal":
            from . import core

            return core.CTX.token(v, ff)
        return ff % v

    return backup_if_exists, initialize_file, write_2d_sliced_to_file
