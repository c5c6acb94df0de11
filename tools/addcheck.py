import sys,re
# addcheck.py ID harness[,harness:flags] "explanation"
id,hs,ex=sys.argv[1:4]
p='/verif/tools/checks.py'; s=open(p).read()
hh=", ".join('h("%s"%s)'%(x.split(':')[0], ', flags="%s"'%x.split(':')[1] if ':' in x else '') for x in hs.split(','))
line='    "%s": {"harness": [%s], "explanation":\n            %r},\n'%(id,hh,ex)
s=re.sub(r'    "%s": \{.*?\},\n(?=    "|\})'%id,'',s,flags=re.S)
i=s.index('\n}\n')+1
s=s[:i]+line+s[i:]
open(p,'w').write(s)
