"""Property registry: the single source of properties.jsonl and MANIFEST.json
(regenerate both with  python3 tools/gen.py)."""

CATALOG = {}


def prop(id, modules, title, statement, over, text, why, files, mech, state=(), observe=(), level_note='',
         technique='TLA+ specification model-checked with TLC; spec-generated walks replayed into the code and recorded traces validated by TLC'):
    CATALOG[id] = dict(modules=modules, title=title, statement=statement, over=over, text=text, why=why, files=files,
                       mech=mech, state=state, observe=observe, level_note=level_note, technique=technique)


from props import *          # noqa: E402,F401,F403  (each entry calls prop())

PROPS = {k: v['modules'] for k, v in CATALOG.items()}
