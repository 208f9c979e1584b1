"""tools/add.py tech C01 "technique" "note"  |  tools/add.py fix C01 "commit subject" "what failed" """
import json, sys, pathlib
d = pathlib.Path(__file__).parent
if sys.argv[1] == 'tech':
    p = d/'techniques.json'; t = json.loads(p.read_text()); t[sys.argv[2]] = dict(technique=sys.argv[3], note=sys.argv[4])
    p.write_text(json.dumps(t, indent=1)+'\n')
else:
    p = d/'fixed.json'; t = json.loads(p.read_text()); t.append(sys.argv[2:5]); p.write_text(json.dumps(t, indent=1)+'\n')
