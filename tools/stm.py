"""stm(id, new statement, title=None): rewrite one property's text in mkprops.py."""
import re, json, os
F = os.path.join(os.path.dirname(os.path.abspath(__file__)), "mkprops.py")
def stm(pid, statement=None, title=None, quant=None, why=None):
    s = open(F).read()
    m = re.search(r'p\("%s", ("(?:[^"\\]|\\.)*"),\n  ("(?:[^"\\]|\\.)*"),\n  (\[[^\]]*\]), ("(?:[^"\\]|\\.)*"),\n  ("(?:[^"\\]|\\.)*"),\n' % pid, s)
    assert m, pid
    t = json.dumps(title) if title else m.group(1)
    st = json.dumps(statement) if statement else m.group(2)
    q = json.dumps(quant) if quant else m.group(4)
    w = json.dumps(why) if why else m.group(5)
    s = s[:m.start()] + 'p("%s", %s,\n  %s,\n  %s, %s,\n  %s,\n' % (pid, t, st, m.group(3), q, w) + s[m.end():]
    open(F, "w").write(s)
