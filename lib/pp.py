# pretty printer of the dump, for reading by hand:  python3 lib/pp.py <dump.json> <substring>
import json,sys
def place(p):
    s='_%d'%p[0]
    for e in p[1:]:
        if e=='*': s='*'+s if not s.endswith(')') else '(*%s)'%s
        elif 'f' in e: s+='.%d'%e['f']
        elif 'v' in e: s='(%s as v%d)'%(s,e['v'])
        else: s+='[%s]'%json.dumps(e)
    return s
def opnd(o):
    if 'c' in o: return place(o['c'])
    if 'm' in o: return 'move '+place(o['m'])
    if 'k' in o:
        k=o['k']
        if 'fn' in k: return 'fn '+(k['fn'].get('res') or k['fn']['decl'])
        return 'const %s'%json.dumps(k,ensure_ascii=False)
    return json.dumps(o)
def rv(r):
    k=r['r']
    if k=='use': return opnd(r['o'])
    if k=='ref': return '&%s%s'%('mut ' if r['mut'] else '',place(r['p']))
    if k=='bin': return '%s(%s, %s)'%(r['op'],opnd(r['a']),opnd(r['b']))
    if k=='un': return '%s(%s)'%(r['op'],opnd(r['o']))
    if k=='disc': return 'disc(%s)'%place(r['p'])
    if k=='agg': return '%s %s#%d{%s}'%(r['k'],r['t'],r['v'],', '.join(map(opnd,r['ops'])))
    if k=='cast': return '%s as %s (%s)'%(opnd(r['o']),r['t'],r['k'])
    if k=='raw': return '&raw '+place(r['p'])
    return json.dumps(r)
def fn(i,names=True):
    out=[]
    out.append('%s argc=%d %s'%(i['path'],i['argc'],i['span']))
    for n,t in enumerate(i['locals']): out.append('  let _%d: %s'%(n,t))
    for n in i['names']: out.append('  // %s = %s'%(n[0],place(n[1])))
    for n,b in enumerate(i['blocks']):
        if b['cl']: continue
        out.append(' bb%d:'%n)
        for p,r,sp in b['s']: out.append('    %s = %s'%(place(p),rv(r)))
        t=b['t']
        k=t['k']
        if k=='goto': s='goto %d'%t['t']+(' (drop %s)'%place(t['p']) if 'drop' in t else '')
        elif k=='switch': s='switch %s %s else %d'%(opnd(t['d']),t['ts'],t['o'])
        elif k=='call':
            f=t['f']
            nm=f.get('decl','?') if 'ind' not in f else 'ind '+opnd(f['ind'])
            s='%s = %s(%s) -> %s   // %s'%(place(t['d']),nm,', '.join(map(opnd,t['a'])),t['t'],f.get('res'))
        elif k=='assert': s='assert %s == %s %s(%s) -> %d'%(opnd(t['c']),t['e'],t['m'],', '.join(map(opnd,t['ops'])),t['t'])
        else: s=k
        out.append('    %s   [%s]'%(s,b['sp']))
    return '\n'.join(out)
if __name__=='__main__':
    d=json.load(open(sys.argv[1]))
    for k,i in d['instances'].items():
        if any(a in k for a in sys.argv[2:]): print(k); print(fn(i)); print()
