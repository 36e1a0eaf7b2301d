"""Writes DESIGN.md from tools/design_head.md, properties.jsonl, checks.json and seeded/."""
import json,sys,glob
sys.path.insert(0,'/verif/tools')
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
cfg=json.load(open('/verif/checks.json'))
how={
"C01":"write/resize/read histories; a ghost of every write (offset, length, bytes) is the oracle; one symbolic position stands for all positions",
"C02":"the same histories and ghost on files of the legacy format (4096-byte chunks in one map)",
"C03":"the same histories and ghost on the in-memory storage, with shrinking, regrowth and limits",
"C04":"ghost of the mounted memory and of the host file; the memory is also read and written directly by its owner; everything about the host file is compared before and after",
"C05":"ghost with shrink points; the byte at a symbolic position is compared after every resize, write, upgrade",
"C06":"full copy of the observable state of the other file (metadata, byte at a symbolic position) before and after each step",
"C07":"marker content in the removed file, ghost of the new one: everything not written is zero",
"C08":"differential: two file systems in disjoint memories run the same history, one is re-created after each operation; all results and observations equal, including page counts and the node numbers of further work",
"C09":"ghost cursor (128-bit arithmetic) against the library's, positions observed through what reads return",
"C10":"model descriptor table; for every number, which file it refers to or that it is refused",
"C11":"independent walk over the bytes of the path (state machine over symbolic bytes) against the result and effects of the call",
"C12":"model tree (tree.rs) with symbolic names; results of all operations, lookups and full comparison",
"C13":"the same model tree with link counts, contents and open descriptors",
"C14":"the model says what must be refused; after a refusal a complete snapshot equals the one before",
"C15":"model tree; every lookup is made before and after each change, through several spellings and starting folders",
"C16":"arithmetic oracle over 64-bit offset, length, size and limit; snapshot comparison after a refusal",
"C17":"snapshot comparison of every attribute of every object except the one set, before/after an upgrade",
"C18":"six data operations with symbolic rights; refused, and snapshot unchanged",
"C19":"truth table of the four flags over the kinds of objects; snapshot comparison after failure",
"C20":"list of all numbers ever handed out and of (node, type, creation time) of every object",
"C21":"page counts of all memories and record counts of all maps after each repetition of a cycle, compared with the earlier repetition",
"C22":"encode/decode round trips through the Storable implementations, comparison against byte-wise order",
"C23":"differential: the list of buffers against one buffer with the concatenation, in two files",
"C24":"model list of entries with their index; listing from the start, from any 32-bit index, entry by entry",
"C25":"oracle table for the chunk size setter; ghosts of two files of different formats",
"C26":"every call with unrestricted symbolic arguments; any reachable trap (panic, overflow, out of bounds) is a violation, then the file system must still work",
"C27":"records in the earlier encodings are written into the memory by the harness; model tree and ghost as for current data",
"C28":"snapshot of the neighbours' memories: size, and byte at a symbolic position",
}
rows=[]
for p in props:
    c=cfg[p['id']]
    n=len(c['quick']); t=len(c.get('thorough',[]))
    rows.append(f"**{p['id']} {p['title']}.** Oracle: {how[p['id']]}. Jobs: {n} quick{f', {t} more thorough' if t else ''}. Bounds: {c['bounds']['quick']}.")
seeded=[]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); seeded.append((d.split('/')[-2],m['property'],m['needs']))
s=open('/verif/tools/design_head.md').read()
s=s.replace('@@PROPS@@','\n\n'.join(rows))
s=s.replace('@@SEEDED@@','\n'.join(f"| {a} | {b} | {c} |" for a,b,c in seeded))
open('/verif/DESIGN.md','w').write(s)
