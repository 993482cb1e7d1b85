#!/usr/bin/env python3
"""Helper: write props/<ID>.json from a compact python call (used interactively)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
def prop(id, title, statement, over, qtext, why, files, mech, note, **kw):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), level_note=note, **kw)
    assert len(title) <= 80, (id, len(title))
    json.dump(d, open(f"{V}/props/{id}.json", "w"), indent=1)
