"""Two calculations in one process: nothing is remembered that should not be (module and class level state)."""
from sx.harness import add_again

add_again("C04", ["2w1d", "3w1d", "2w2d", "2w1d-large", "3w2d-large"])
add_again("C05", ["one-bulk", "one-recalc"])
add_again("C10", ["apply1d"])
add_again("C11", ["poly2", "poly5", "poly3x3", "poly2x2x2"])
add_again("C12", ["single"])
add_again("C16", ["1d-1bin"])
add_again("C17", ["fes2", "fes12-top"])
add_again("C18", ["formula-1d", "formula-2d", "counts-1d"])
add_again("C19", ["inside-1d-1-1", "inside-2d-1-1", "count-1d-2-1"])
add_again("C20", ["points4", "points2x3", "steps-1d-list"])
add_again("C21", ["binary3", "binary2x3", "unary2x3"])
add_again("C22", ["density3", "density2x3", "ref1d-3"])
add_again("C23", ["conv-4-3-same", "conv-3x4-2x3-valid", "kernel-4-k3-same", "kernel-5-k3-valid", "additive-5-k3-same", "trapz-2x3", "sparsify-5-3"])
add_again("C30", ["1d-extra0", "2d-extra2"])
