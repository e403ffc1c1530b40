import re,sys
for f in sys.argv[1:]:
    s=open(f).read(); s=re.sub(r'/\*.*?\*/',lambda m:'\n'*m.group(0).count('\n'),s,flags=re.S)
    print('==',f)
    for i,l in enumerate(s.split('\n'),1):
        if re.match(r'^\s*//',l) or not l.strip(): continue
        print(i,l)
