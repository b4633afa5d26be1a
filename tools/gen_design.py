import sys, re, json, importlib.util
sys.path.insert(0,'/verif/tools'); sys.path.insert(0,'/verif')
import props
detail = json.load(open('/verif/tools/design_notes.json'))
out=[open('/verif/tools/design_head.md').read()]
for p in props.P:
    if p['na']: continue
    s=open(f"/verif/checks/{p['id'].lower()}.py").read()
    ns={}
    m=re.search(r'^BOUNDS = (\(.*?^\)|"[^\n]*")',s,re.S|re.M); b=eval(m.group(1))
    m=re.search(r'^ASSUMPTIONS = (\[.*?\]$)',s,re.S|re.M); a=eval(m.group(1))
    sc=re.findall(r'^@scenario.*?\ndef (\w+)\(x\):\n(?:    """(.*?)""")?',s,re.M)
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"*Encoded:* "+"; ".join(m[1] for m in p['mech'])+".\n")
    out.append("*Asserted:*\n")
    for n,d in sc:
        out.append(f"- `{n}`: {d or detail.get(p['id'],{}).get(n,'')}")
    out.append("")
    out.append(f"*Bounds:* {b}.\n")
    out.append(f"*Assumptions:* {'; '.join(a)}.\n")
    out.append(f"*Why tests cannot settle it:* {p['why']}.\n")
    n=detail.get(p['id'],{}).get('note')
    if n: out.append(n+"\n")
out.append(open('/verif/tools/design_tail.md').read())
out_s="\n".join(out)
nas=[p for p in props.P if p['na']]
out_s=out_s.replace('@@NA@@',"\n".join(f"- **{p['id']} {p['title']}**: {p['na']}" for p in nas))
fixes=json.load(open('/verif/known_findings.json'))
out_s=out_s.replace('@@FIXES@@',"\n".join(f"- {f['id']} ({f['property']}, {f['commit']}): {f['what'].split(' ',3)[3]}" for f in fixes if f['status']=='fixed'))
import glob, os
rows=["| bug | property | needs | what it breaks |","|---|---|---|---|"]
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(m)); rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} | {d['what_it_breaks']} |")
rows.append("\nAll are caught by the quick check of the property named.")
out_s=out_s.replace('@@BUGS@@',"\n".join(rows))
open('/verif/DESIGN.md','w').write(out_s)
