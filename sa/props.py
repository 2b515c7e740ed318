"""The properties and the analyses that decide them."""
PROPS = {}


def prop(pid, rule, min=1):
    def deco(fn):
        PROPS[pid] = {'fn': fn, 'rule': rule, 'min': min}
        return fn
    return deco


import p_syntax      # noqa: E402,F401
import p_fail        # noqa: E402,F401
import p_pure        # noqa: E402,F401
import p_safe        # noqa: E402,F401
import p_small       # noqa: E402,F401
import p_effects     # noqa: E402,F401
import p_init        # noqa: E402,F401
import p_store       # noqa: E402,F401
import p_loops       # noqa: E402,F401
import p_bits        # noqa: E402,F401
import p_stream      # noqa: E402,F401
import p_dump        # noqa: E402,F401
import p_entry       # noqa: E402,F401
import p_own         # noqa: E402,F401
import p_cli         # noqa: E402,F401
import p_sum         # noqa: E402,F401
import p_files       # noqa: E402,F401
