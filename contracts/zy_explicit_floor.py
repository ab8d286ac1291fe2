"""C03, C04, C16, C17, C22: the floor handed to an update is the floor used.

Every update method takes flooring_fn (default: the method object's own).  The contracts of the updates are stated for
an arbitrary floor held by the method object; here the same contracts are checked once more with that floor handed in
explicitly, while the object's own floor is a different arbitrary function that must then not enter the result."""
import re

from vc import registry as R

METHOD = re.compile(r"bss\.(ilrma|iva|fdica|ipsdta|mnmf|cacgmm)\.\w+\.(update_\w+|normalize\w*|_reset|_init_\w+|solve_permutation\w*)$")

for con in list(R.CONTRACTS):
    props = [p for p in con.props if p not in ("C09", "C07", "C08", "C14", "C15")]
    if con.frame is None and props and any(METHOD.search(u) for u in con.under):
        R.explicit_variant(con, props, 2)
