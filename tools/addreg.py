import sys
s=open('/verif/registry.py').read(); i=s.index('\n# properties without a check'); s=s[:i].rstrip('\n')+'\n\n'+sys.stdin.read().strip('\n')+'\n'+s[i:]; open('/verif/registry.py','w').write(s)
