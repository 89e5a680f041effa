# Regenerates the table of planted bugs in DESIGN.md.
import glob,json,re
rows=[]
for f in glob.glob('seeded/*/meta.json'):
    d=json.load(open(f)); rows.append((d['property'],f.split('/')[1],d['what_it_breaks'].replace('|','/').replace('\n',' ')))
t='| property | id | what it breaks | caught by |\n|---|---|---|---|\n'+''.join('| %s | %s | %s | %s |\n'%(p,i,w,p) for p,i,w in sorted(rows))+'\n'
s=open('DESIGN.md').read()
s=re.sub(r'\| property \| id \|.*?\n\n',lambda m:t,s,count=1,flags=re.S)
open('DESIGN.md','w').write(s)
