#!/usr/bin/env python3
"""One-off bootstrap: transcribes the wire layout of every generated message of the pinned commit
into /verif/spec/layout.txt.  Not used by any check: the committed layout is the reference.
It parses encode() and decode() separately and reports every place where the two disagree."""
import re,sys,pathlib
repo=pathlib.Path(sys.argv[1] if len(sys.argv)>1 else '/repo')
out=[]
bad=[]
def classes(src):
    # yield (name, body, nested)
    m=re.search(r'public class (\w+) implements BinaryCodec \{',src)
    return m
def split_nested(src):
    parts=[]
    top=re.search(r'public class (\w+) implements BinaryCodec',src).group(1)
    pos=[(m.start(),m.group(1)) for m in re.finditer(r'public static class (\w+) implements BinaryCodec',src)]
    cuts=[0]+[p for p,_ in pos]+[len(src)]
    names=[top]+[top+'$'+n for _,n in pos]
    return [(n,src[cuts[i]:cuts[i+1]]) for i,n in enumerate(names)]
def method(src,name):
    m=re.search(r'public void %s\(ByteBuf byteBuf\) \{'%name,src)
    i=m.end();d=1
    while d:
        c=src[i]
        if c=='{':d+=1
        if c=='}':d-=1
        i+=1
    return re.sub(r'\s+',' ',src[m.end():i-1]).strip()
PR={'Byte':'i8','Short':'i16','Int':'i32','Long':'i64','Float':'f32','Double':'f64'}
def ch(c): return {"' '":'SP',"'0'":'ZERO',"'\\0'":'NUL'}[c]
def enc_layout(body,cn):
    L=[];s=body
    def eat(rx):
        nonlocal s
        m=re.match(rx,s)
        if m: s=s[m.end():].lstrip()
        return m
    while s:
        m=eat(r'byteBuf\.write(Byte|Short|Int|Long|Float|Double)(LE)?\(this\.(\w+)\);')
        if m: L.append((m[3],PR[m[1]]+('le' if m[2] else 'be' if m[1]!='Byte' else '')));continue
        m=eat(r"writeFixedString\( ?byteBuf, this\.(\w+), (\d+)(?:, ('.*?'), (true|false))?\);")
        if m: L.append((m[1],'fix:%s:%s:%s'%(m[2],ch(m[3]) if m[3] else 'SP','L' if m[4]=='true' else 'R')));continue
        m=eat(r'if \(StringUtil\.isNullOrEmpty\(this\.(\w+)\)\) \{ byteBuf\.write(Short|Int)(?:LE)?\(0\); \} else \{ byte\[\] bytes = this\.\1\.getBytes\(StandardCharsets\.UTF_8\); byteBuf\.write\2(LE)?\(bytes\.length\); byteBuf\.writeBytes\(bytes\); \}')
        if m: L.append((m[1],'dyn:%s%s'%(PR[m[2]],'le' if m[3] else 'be')));continue
        m=eat(r'if \(null == this\.(\w+) \|\| this\.\1\.size\(\) == 0\) \{ byteBuf\.write(Short|Int)(?:LE)?\(0\); \} else \{ byteBuf\.write\2(LE)?\(\((?:short|int)\) this\.\1\.size\(\)\); for \(int i = 0; i < this\.\1\.size\(\); i\+\+\) \{ ')
        if m:
            f=m[1];pre='%s%s'%(PR[m[2]],'le' if m[3] else 'be')
            g=eat(r'byteBuf\.write(Byte|Short|Int|Long|Float|Double)(LE)?\(this\.%s\.get\(i\)\); \} \}'%f)
            if g: L.append((f,'list:%s:%s'%(pre,PR[g[1]]+('le' if g[2] else 'be' if g[1]!='Byte' else ''))));continue
            g=eat(r"writeFixedString\( ?byteBuf, this\.%s\.get\(i\), (\d+)(?:, ('.*?'), (true|false))?\); \} \}"%f)
            if g: L.append((f,'list:%s:fix:%s:%s:%s'%(pre,g[1],ch(g[2]) if g[2] else 'SP','L' if g[3]=='true' else 'R')));continue
            g=eat(r'this\.%s\.get\(i\)\.encode\(byteBuf\); \} \}'%f)
            if g: L.append((f,'list:%s:obj'%pre));continue
            g=eat(r'if \(StringUtil\.isNullOrEmpty\(this\.%s\.get\(i\)\)\) \{ byteBuf\.write(Short|Int)(?:LE)?\(0\); \} else \{ byte\[\] bytes = this\.%s\.get\(i\)\.getBytes\(StandardCharsets\.UTF_8\); byteBuf\.write\1(LE)?\(bytes\.length\); byteBuf\.writeBytes\(bytes\); \} \} \}'%(f,f))
            if g: L.append((f,'list:%s:dyn:%s%s'%(pre,PR[g[1]],'le' if g[2] else 'be')));continue
            raise Exception(cn+' list? '+s[:200])
        m=eat(r'this\.(\w+)\.encode\(byteBuf\);')
        if m: L.append((m[1],'obj'));continue
        m=eat(r'if \(null != this\.(\w+)\) \{ this\.\1\.encode\(byteBuf\); \}')
        if m: L.append((m[1],'union'));continue
        m=eat(r'int (\w+)Pos = byteBuf\.writerIndex\(\); byteBuf\.write(Short|Int)(LE)?\(0\); int (\w+)Start = byteBuf\.writerIndex\(\); if \(this\.\4 != null\) \{ this\.\4\.encode\(byteBuf\); \} int \4End = byteBuf\.writerIndex\(\); this\.\1 = \(int\) \(\4End - \4Start\); byteBuf\.set\2(LE)?\(\1Pos, this\.\1\);')
        if m:
            assert m[3]==m[5]
            L.append((m[1],'len:%s%s:%s'%(PR[m[2]],'le' if m[3] else 'be',m[4])));L.append((m[4],'union'));continue
        m=eat(r'(?:int frameStart = byteBuf\.writerIndex\(\); )?ChecksumService<ByteBuf, Integer> checksumService = ChecksumServiceFactory\.getInstance\(\)\.getChecksumService\("(\w+)"\); if \(checksumService != null\) \{ this\.(\w+) = \(int\) checksumService\.calc\(byteBuf\); \} byteBuf\.writeInt(LE)?\(this\.\2\);')
        if m: L.append((m[2],'sum:%s:%s'%('i32'+('le' if m[3] else 'be'),m[1])));continue
        raise Exception(cn+' enc? '+s[:300])
    return L
def dec_layout(body,cn,types):
    L=[];s=body
    def eat(rx):
        nonlocal s
        m=re.match(rx,s)
        if m: s=s[m.end():].lstrip()
        return m
    while s:
        m=eat(r'this\.(\w+) = byteBuf\.read(Byte|Short|Int|Long|Float|Double)(LE)?\(\);')
        if m: L.append((m[1],PR[m[2]]+('le' if m[3] else 'be' if m[2]!='Byte' else '')));continue
        m=eat(r"this\.(\w+) = readFixedString\( ?byteBuf, (\d+)(?:, ('.*?'), (true|false))?\);")
        if m: L.append((m[1],'fix:%s:%s:%s'%(m[2],ch(m[3]) if m[3] else 'SP','L' if m[4]=='true' else 'R')));continue
        m=eat(r'(short|int) (\w+)Len = byteBuf\.read(Short|Int)(LE)?\(\); if \(\2Len > 0\) \{ this\.\2 = byteBuf ?\.readCharSequence\(\2Len, StandardCharsets\.UTF_8\) ?\.toString\(\); \}')
        if m: L.append((m[2],'dyn:%s%s'%(PR[m[3]],'le' if m[4] else 'be')));continue
        m=eat(r'(short|int) (\w+)Size = byteBuf\.read(Short|Int)(LE)?\(\); if \(\2Size > 0\) \{ this\.\2 = new ArrayList<>\(\); for \(int i = 0; i < \2Size; i\+\+\) \{ ')
        if m:
            f=m[2];pre='%s%s'%(PR[m[3]],'le' if m[4] else 'be')
            g=eat(r'this\.%s\.add\(byteBuf\.read(Byte|Short|Int|Long|Float|Double)(LE)?\(\)\); \} \}'%f)
            if g: L.append((f,'list:%s:%s'%(pre,PR[g[1]]+('le' if g[2] else 'be' if g[1]!='Byte' else ''))));continue
            g=eat(r"this\.%s\.add\( ?readFixedString\(byteBuf, (\d+)(?:, ('.*?'), (true|false))?\)\); \} \}"%f)
            if g: L.append((f,'list:%s:fix:%s:%s:%s'%(pre,g[1],ch(g[2]) if g[2] else 'SP','L' if g[3]=='true' else 'R')));continue
            g=eat(r'(\w+) (\w+) = new \1\(\); \2\.decode\(byteBuf\); this\.%s\.add\(\2\); \} \}'%f)
            if g: L.append((f,'list:%s:obj'%pre));continue
            g=eat(r'(?:short|int) (\w+)Len = byteBuf\.read(Short|Int)(LE)?\(\); if \(\1Len > 0\) \{ this\.%s\.add\( byteBuf ?\.readCharSequence\(\1Len, StandardCharsets\.UTF_8\) ?\.toString\(\)\); \} \} \}'%f)
            if g: L.append((f,'list:%s:dyn:%s%s'%(pre,PR[g[2]],'le' if g[3] else 'be')));continue
            raise Exception(cn+' dlist? '+s[:200])
        m=eat(r'if \(null == this\.(\w+)\) \{ this\.\1 = new (\w+)\(\); \} this\.\1\.decode\(byteBuf\);')
        if m: L.append((m[1],'obj'));continue
        m=eat(r'this\.(\w+) = (\w+)(?:\.getInstance\(\)\.create)?\(this\.(\w+)\); this\.\1\.decode\(byteBuf\);')
        if m: L.append((m[1],'union:%s:%s'%(m[3],m[2])));continue
        raise Exception(cn+' dec? '+s[:300])
    return L
n=0
for f in sorted(repo.glob('*/src/main/java/com/finproto/*/**/messages/*.java')):
    src=f.read_text()
    mod=f.relative_to(repo).parts[0]
    pkg=re.search(r'package ([\w.]+);',src)[1]
    for cn,cs in split_nested(src):
        types={m[2]:m[1] for m in re.finditer(r'private ([\w<>]+) (\w+);',cs)}
        e=enc_layout(method(cs,'encode'),cn);d=dec_layout(method(cs,'decode'),cn,types)
        # compare
        def norm(t): return re.sub(r'^(union).*',r'\1',re.sub(r'^(len|sum):(\w+).*',r'\2',t))
        en=[(a,norm(b)) for a,b in e];dn=[(a,norm(b)) for a,b in d]
        if en!=dn: bad.append((cn,en,dn))
        decl=list(types)
        if decl!=[a for a,_ in e]: bad.append((cn,'field order',decl,[a for a,_ in e]))
        dd=dict(d)
        out.append('message %s.%s'%(pkg,cn));n+=1
        for a,t in e:
            if t=='union': t=dd[a]
            if t=='obj': t='obj:'+types[a]
            if t.startswith('list') and t.endswith(':obj'): t=t+':'+re.search(r'List<(\w+)>',types[a])[1]
            # java element type
            out.append('  %s %s'%(a,t))
    for m in re.finditer(r'public static enum (\w+MessageFactory) \{',src):
        body=src[m.start():]
        top=re.search(r'public class (\w+)',src)[1]
        fac=m[1]
        kt=re.search(r'public BinaryCodec create\((\w+) ',body)[1]
        out.append('registry %s.%s$%s %s'%(pkg,top,fac,kt))
        consts={x[1]:x[2] for x in re.finditer(r'(\w+)\((\d+)\)[,;]',body)}
        for r in re.finditer(r'\.register\(\s*(?:(\w+)\.class,\s*)?(\([a-z]+\) \d+|"[^"]*"|MessageType\.(\w+)\.getValue\(\)),\s*(\w+)::new\)',body):
            k=r[2]
            if r[3]: k=consts[r[3]]
            k=re.sub(r'^\(\w+\) ','',k).strip('"')
            out.append('  %s %s%s'%(k,r[4],(' class='+r[1]) if r[1] else ''))
print('\n'.join(out))
for b in bad: print('MISMATCH',b,file=sys.stderr)
print(n,'messages',file=sys.stderr)
