"""meta.py ID PROPERTY NEEDS BREAKS: writes seeded/ID/meta.json"""
import json, sys
json.dump({"property": sys.argv[2], "needs": sys.argv[3], "what_it_breaks": sys.argv[4]}, open("/verif/seeded/%s/meta.json" % sys.argv[1], "w"), indent=1)
