"""C09: the frame condition of every contract of this folder, on its own.

Each contract states, for some routine and all sizes and values, what the routine computes; here the same calls are
made once more and the only question is whether an array handed in is written.  An array the contract installs as
a method object's state is that object's own (it may be updated in place); an array passed as an argument, to a
function or to a method's _reset, is the caller's.  Arrays a routine is documented to overwrite are excepted."""
import re

from vc import registry as R

OVERWRITTEN = [
    # overwrite=True is the default of these three and documented
    (re.compile("update_by_(ip1|ip2|block_decomposition_vcd)"), ("W",)),
]

for con in list(R.CONTRACTS):
    if "C09" in con.props or con.frame is not None or con.explicit or con.props == ("C07",):
        continue
    may = [n for rx, names in OVERWRITTEN if any(rx.search(u) for u in con.under) for n in names]
    R.frame_variant(con, "C09", may, samples=3)
