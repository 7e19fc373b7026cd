#!/usr/bin/env python3
"""Rewrite the "fixed" lines of known-findings.jsonl from the fix: commits of /repo (run by hand, never by a check)."""
import subprocess, json
BASE='aadca53'
RULES=[('unparser: ','C28'),('OpenAPI export','C13'),('OpenAPI import','C14'),('Swagger import','C16'),('GraphQL export','C17'),('GraphQL import','C18'),
('Go generator: ','C19'),('generated Go enums','C19'),('Go server: ','C20'),('Go client: ','C20'),('Java generator: ','C21'),('Java server: ','C31'),('Java client: ','C31'),('Java server and client','C31'),('HTTP examples: ','C22'),
('parser: ','C26'),('ends at the end of the file','C26'),('incomplete operation','C26'),('includes itself','C26'),('HTTP parameters are required','C25'),
('undefined types','C27'),('examples of HTTP requests and responses are checked','C27'),('unknown directive','C25'),('union types keep','C25'),('comment of a field','C25'),('text that does not belong','C25'),('comment after','C25'),('comment before','C25'),('examples keep','C25'),('examples of an included','C25'),('List without','C25'),('empty array literal','C25'),('default resource name','C25'),('empty comment line','C25'),('inputs and outputs of operations','C25'),('inline struct','C25'),('Smithy','C29'),
('infinities as Decimal','C02'),('binary exponent','C02'),('UUID text','C04'),('print timestamps','C03'),('encoding a UnitValue','C05'),
('undefined type name','C08'),('type equivalence','C08'),('hoisted enum','C09'),('example targets','C30'),('nested lookup','C10'),
('annotations are printed','C23'),('wrapped comment','C11'),('flushing','C12')]
p='/verif/known-findings.jsonl'
keep=[l for l in open(p) if '"fixed"' not in l or l.startswith('#')]
out=[]
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s',BASE+'..'],text=True).splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    s=s[4:].strip()
    prop=next((q for k,q in RULES if k in s),'C01')
    out.append(json.dumps({"status":"fixed","property":prop,"commit":h,"what":"fixed: property=%s %s %s"%(prop,h,s)})+'\n')
open(p,'w').writelines(keep+out)
