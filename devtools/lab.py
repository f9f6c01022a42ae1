import sys
from yangson import DataModel
from yangson.enumerations import *
import os,tempfile,json,traceback,atexit,shutil
def mk(body, extra={}, hdr="", mods={}, files={}):
    d=tempfile.mkdtemp()
    atexit.register(shutil.rmtree,d,True)
    open(d+'/m.yang','w').write('module m { yang-version 1.1; namespace "urn:m"; prefix m; %s revision 2020-01-01;\n%s }' % (hdr, body))
    more=[{"name":n,"revision":"","namespace":"urn:"+n,"conformance-type":"implement"} for n in mods]
    for n in mods: open(d+'/'+n+'.yang','w').write(mods[n])
    for n in files: open(d+"/"+n,"w").write(files[n])
    mods=[dict({"name":"m","revision":"2020-01-01","namespace":"urn:m","conformance-type":"implement"}, **extra)]+more
    lib={"ietf-yang-library:modules-state":{"module-set-id":"x","module":mods}}
    return DataModel(json.dumps(lib),[d])
def val(dm, raw, ct='all', sc='all'):
    try:
        dm.from_raw(raw).validate(ValidationScope[sc], ContentType[ct]); return 'ok'
    except Exception as e:
        return f"{type(e).__name__}: {e}"
