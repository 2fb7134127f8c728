"""(re)writes reference/model.jsonl.xz from the current tree; run by hand after review, never by a check"""
import json
import lzma
import os
from . import model

recs = model.extract()
os.makedirs(os.path.dirname(model.REFERENCE), exist_ok=True)
seen = set()
with lzma.open(model.REFERENCE, 'wt', preset=9) as f:
    for r in recs:
        l = json.dumps(r, separators=(',', ':'), sort_keys=True)
        if l not in seen:
            seen.add(l)
            f.write(l + '\n')
