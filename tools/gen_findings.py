#!/usr/bin/env python3
"""KNOWN_FINDINGS.json from findings below and fixed.txt."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
F = [
 {"property": "C03", "replay": "corpus/C03/filter-described.json", "signature": "conforming frame rejected: Err(ParseError(InvalidFormatCode(0)))",
  "what": "an attach whose source has a filter-set with a described filter value (every filter the specification defines is one) is rejected; FilterSet is a public map of Option<ByteString>"},
]
fixed = [l.strip() for l in open(f"{root}/tools/fixed.txt") if l.strip()]
json.dump({"findings": F, "fixed": fixed}, open(f"{root}/KNOWN_FINDINGS.json", "w"), indent=1)
