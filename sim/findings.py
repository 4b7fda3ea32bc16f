"""Known findings: read-only at run time."""

from __future__ import annotations

import json
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                    "known_findings.json")


def match(prop, **facts):
    """The text of the listed finding that these facts match, or None."""
    with open(PATH) as f:
        data = json.load(f)
    for k in data["findings"]:
        if k["property"] == prop and k["match"] == facts:
            return k["what"]
    return None
