import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
import meta, props, jsonschema
ps, man = [], dict(version=1, setup_cmd="bin/setup", hooks=dict(guard="none", enable="no hooks: the checks compile /repo's files as they are, against stand-in dependencies under /verif/shims", source_commits=[]), checks=[], not_applicable=[])
for p in meta.P:
    ps.append(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                   anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]])))
    assert len(p["title"]) <= 80, p["id"]
    if p["na"]:
        man["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
        continue
    sp = props.PROPS[p["id"]]
    man["checks"].append(dict(property=p["id"], quick_cmd="bin/check %s --tier quick" % p["id"], thorough_cmd="bin/check %s --tier thorough" % p["id"],
                              technique=p["technique"], level=sp.get("level", "model_checking"), level_note=p["note"] + " Bounds: " + sp["bounds"] + ". Assumes: " + "; ".join(sp["assumptions"]) + "."))
    for f in p["files"]:
        assert os.path.exists("/repo/" + f), f
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in ps:
    jsonschema.validate(x, sch)
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
open(V + "/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in ps))
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(ps), "properties,", len(man["checks"]), "claimed")
