"""All properties by id."""
from . import props_doc, props_fault, props_coll, props_env, props_time, props_steps

MODULES = [props_doc, props_fault, props_coll, props_env, props_time, props_steps]


def table():
    out = {}
    for m in MODULES:
        for x in vars(m).values():
            if isinstance(x, type) and issubclass(x, props_doc.Prop) and x.ID:
                out[x.ID] = x
    return out


def get(name):
    return table()[name]()
