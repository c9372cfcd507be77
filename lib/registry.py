"""property id -> how it is decided"""
import traceback

import common
import obligations
import rules_bind
import rules_conv, rules_format, rules_token
import rules_eq
import rules_parse
import rules_sort
import rules_export
import rules_imm
import rules_kinds
import rules_reflect
import rules_serde
import witness


def run(prop, tier):
    check = CHECKS[prop]
    try:
        return check(tier)
    except (KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError) as e:
        if not check.__module__.startswith("rules_"):
            raise
        # a construct the rule has no notion of: nothing is decided
        res = common.Result(prop)
        res.level = "other"
        at = traceback.extract_tb(e.__traceback__)[-1]
        res.notes.append(f"not decided: {type(e).__name__} {e} at {at.name}:{at.lineno}")
        res.coverage = dict(analysed={}, explanation="the source has a construct the rule cannot follow, see the notes")
        res.extra["summary"] = "nothing decided, see the notes"
        return res


def obl(prop, **kw):
    return lambda tier: obligations.check(prop, tier, **kw)


SHIM = lambda: common.base_flags(False)  # the code under analysis needs {fmt} 11 and friends

CHECKS = {
    "C06": rules_serde.check,
    "C07": rules_imm.check,
    "C08": rules_reflect.check,
    "C09": rules_kinds.check,
    "C11": rules_bind.check,
    "C12": obl("C12", min_obligations=41, flags=SHIM),
    "C13": obl("C13", min_obligations=109, flags=SHIM),
    "C14": obl("C14", min_obligations=71, flags=SHIM),
    "C15": obl("C15", min_obligations=78, flags=SHIM),
    "C23": rules_eq.check,
    "C24": rules_sort.check,
    "C26": rules_parse.check,
    "C27": rules_conv.check,
    "C28": rules_format.check,
    "C29": rules_token.check,
    "C01": obl("C01", min_obligations=50),
    "C03": obl("C03", min_obligations=10),
    "C04": obl("C04", min_obligations=11),
    "C05": obl("C05", min_obligations=30),
    "C10": rules_export.check,
    "C16": obl("C16", min_obligations=67, flags=SHIM),
    "C17": obl("C17", min_obligations=40, flags=SHIM),
    "C25": obl("C25", min_obligations=39, flags=SHIM),
    "C18": obl("C18", min_obligations=60),
    "C02": obl("C02", min_obligations=28),
    "C21": obl("C21", min_obligations=33),
    "C22": lambda tier: witness.check("C22", tier, min_witnesses=140),
    "C20": obl("C20", min_obligations=74, flags=SHIM),
    "C19": obl("C19", min_obligations=80),
}
