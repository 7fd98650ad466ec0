mk() { # NAME PROP NEEDS BREAKS
  cp ${VSRC:-/verif}/tools/demo_go.sh ${VSRC:-/verif}/seeded/$1/demo.sh; chmod +x ${VSRC:-/verif}/seeded/$1/demo.sh
  mkm "$@"
}
mkm() {
  python3 - "$@" <<'P'
import json,sys
n,p,a,b=sys.argv[1:5]
json.dump({"property":p,"needs":a,"what_it_breaks":b},open(__import__('os').environ.get('VSRC','/verif')+f"/seeded/{n}/meta.json","w"),indent=1)
P
}
mkt() { # like mk, for the client
  cp ${VSRC:-/verif}/tools/demo_ts.sh ${VSRC:-/verif}/seeded/$1/demo.sh; chmod +x ${VSRC:-/verif}/seeded/$1/demo.sh
  mkm "$@"
}
