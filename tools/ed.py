"""Helper for edits in /repo that keeps each file's line endings: rep(path, old, new)."""
def rep(path, old, new, count=1):
    b = open(path, newline='').read()
    crlf = '\r\n' in b
    s = b.replace('\r\n', '\n')
    assert s.count(old) == count, (path, s.count(old), old[:80])
    s = s.replace(old, new)
    open(path, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
