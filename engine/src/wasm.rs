//! WebAssembly module parser and translation of function bodies to a flat code with resolved branches.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FuncType {
    pub params: Vec<u8>,
    pub results: Vec<u8>,
}

#[derive(Clone, Copy, Debug)]
pub struct Ins {
    pub op: u16,
    pub a: u32,
    pub b: u32,
    pub imm: u64,
}

// ops below 0x100 are the wasm opcodes themselves; 0xFC xx is 0x100 + xx
pub const OP_BR: u16 = 0x200; // a = target pc, b = arity, imm = height to cut to (relative to operand base)
pub const OP_BRIF: u16 = 0x201;
pub const OP_BRTABLE: u16 = 0x202; // a = index of the table
pub const OP_RET: u16 = 0x203;
pub const OP_BRIFZ: u16 = 0x204; // jump if zero, no stack adjustment (if)
pub const OP_JMP: u16 = 0x205;

pub struct Func {
    pub ty: u32,
    pub nlocals: u32, // including params
    pub code: Vec<Ins>,
    pub brtabs: Vec<Vec<(u32, u32, u64)>>,
    pub name: String,
    pub import: Option<(String, String)>,
}

pub struct Module {
    pub types: Vec<FuncType>,
    pub funcs: Vec<Func>,
    pub nimports: usize,
    pub table: Vec<u32>, // func idx or u32::MAX
    pub mem_min: u32,
    pub globals: Vec<u64>,
    pub exports: HashMap<String, u32>,
    pub data: Vec<(u32, Vec<u8>)>,
    pub code_bytes: usize,
}

struct R<'a> {
    b: &'a [u8],
    p: usize,
}
impl<'a> R<'a> {
    fn u8(&mut self) -> u8 {
        let v = self.b[self.p];
        self.p += 1;
        v
    }
    fn leb(&mut self) -> u64 {
        let mut r = 0u64;
        let mut s = 0;
        loop {
            let b = self.u8();
            r |= ((b & 0x7f) as u64) << s;
            if b & 0x80 == 0 {
                return r;
            }
            s += 7;
        }
    }
    fn u32(&mut self) -> u32 {
        self.leb() as u32
    }
    fn sleb(&mut self, bits: u32) -> i64 {
        let mut r = 0i64;
        let mut s = 0;
        loop {
            let b = self.u8();
            r |= ((b & 0x7f) as i64) << s;
            s += 7;
            if b & 0x80 == 0 {
                if s < 64 && (b & 0x40) != 0 {
                    r |= -1i64 << s;
                }
                let _ = bits;
                return r;
            }
        }
    }
    fn bytes(&mut self, n: usize) -> &'a [u8] {
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        r
    }
    fn name(&mut self) -> String {
        let n = self.u32() as usize;
        String::from_utf8_lossy(self.bytes(n)).to_string()
    }
}

fn const_expr(r: &mut R, globals: &[u64]) -> u64 {
    let mut v = 0;
    loop {
        match r.u8() {
            0x41 => v = r.sleb(32) as u32 as u64,
            0x42 => v = r.sleb(64) as u64,
            0x43 => v = u32::from_le_bytes(r.bytes(4).try_into().unwrap()) as u64,
            0x44 => v = u64::from_le_bytes(r.bytes(8).try_into().unwrap()),
            0x23 => v = globals[r.u32() as usize],
            0x0b => return v,
            x => panic!("const expr op {x:x}"),
        }
    }
}

pub fn parse(b: &[u8]) -> Module {
    assert_eq!(&b[0..8], b"\0asm\x01\0\0\0");
    let mut m = Module {
        types: vec![],
        funcs: vec![],
        nimports: 0,
        table: vec![],
        mem_min: 0,
        globals: vec![],
        exports: HashMap::new(),
        data: vec![],
        code_bytes: 0,
    };
    let mut r = R { b, p: 8 };
    let mut bodies: Vec<(usize, usize)> = vec![];
    let mut ftypes: Vec<u32> = vec![];
    let mut names: HashMap<u32, String> = HashMap::new();
    while r.p < b.len() {
        let id = r.u8();
        let len = r.u32() as usize;
        let end = r.p + len;
        match id {
            0 => {
                let n = r.name();
                if n == "name" {
                    while r.p < end {
                        let sid = r.u8();
                        let sl = r.u32() as usize;
                        let se = r.p + sl;
                        if sid == 1 {
                            let c = r.u32();
                            for _ in 0..c {
                                let i = r.u32();
                                let s = r.name();
                                names.insert(i, s);
                            }
                        }
                        r.p = se;
                    }
                }
            }
            1 => {
                let c = r.u32();
                for _ in 0..c {
                    assert_eq!(r.u8(), 0x60);
                    let n = r.u32() as usize;
                    let params = r.bytes(n).to_vec();
                    let n = r.u32() as usize;
                    let results = r.bytes(n).to_vec();
                    m.types.push(FuncType { params, results });
                }
            }
            2 => {
                let c = r.u32();
                for _ in 0..c {
                    let md = r.name();
                    let nm = r.name();
                    match r.u8() {
                        0 => {
                            let ty = r.u32();
                            m.funcs.push(Func {
                                ty,
                                nlocals: 0,
                                code: vec![],
                                brtabs: vec![],
                                name: format!("{md}.{nm}"),
                                import: Some((md, nm)),
                            });
                            m.nimports += 1;
                        }
                        x => panic!("import kind {x}"),
                    }
                }
            }
            3 => {
                let c = r.u32();
                for _ in 0..c {
                    ftypes.push(r.u32());
                }
            }
            4 => {
                let c = r.u32();
                for _ in 0..c {
                    r.u8();
                    let fl = r.u8();
                    let min = r.u32();
                    if fl & 1 == 1 {
                        r.u32();
                    }
                    m.table = vec![u32::MAX; min as usize];
                }
            }
            5 => {
                let c = r.u32();
                assert_eq!(c, 1);
                let fl = r.u8();
                m.mem_min = r.u32();
                if fl & 1 == 1 {
                    r.u32();
                }
            }
            6 => {
                let c = r.u32();
                for _ in 0..c {
                    r.u8();
                    r.u8();
                    let g = m.globals.clone();
                    let v = const_expr(&mut r, &g);
                    m.globals.push(v);
                }
            }
            7 => {
                let c = r.u32();
                for _ in 0..c {
                    let n = r.name();
                    let k = r.u8();
                    let i = r.u32();
                    if k == 0 {
                        m.exports.insert(n, i);
                    }
                }
            }
            9 => {
                let c = r.u32();
                for _ in 0..c {
                    let fl = r.u32();
                    assert_eq!(fl, 0, "element segment kind");
                    let g = m.globals.clone();
                    let off = const_expr(&mut r, &g) as usize;
                    let n = r.u32();
                    for i in 0..n as usize {
                        let f = r.u32();
                        m.table[off + i] = f;
                    }
                }
            }
            10 => {
                m.code_bytes = len;
                let c = r.u32();
                for _ in 0..c {
                    let sz = r.u32() as usize;
                    bodies.push((r.p, r.p + sz));
                    r.p += sz;
                }
            }
            11 => {
                let c = r.u32();
                for _ in 0..c {
                    let fl = r.u32();
                    assert_eq!(fl, 0, "data segment kind");
                    let g = m.globals.clone();
                    let off = const_expr(&mut r, &g) as u32;
                    let n = r.u32() as usize;
                    m.data.push((off, r.bytes(n).to_vec()));
                }
            }
            _ => {}
        }
        r.p = end;
    }
    for (i, &ty) in ftypes.iter().enumerate() {
        let idx = (m.nimports + i) as u32;
        m.funcs.push(Func {
            ty,
            nlocals: 0,
            code: vec![],
            brtabs: vec![],
            name: names.get(&idx).cloned().unwrap_or(format!("f{idx}")),
            import: None,
        });
    }
    for (i, &(s, e)) in bodies.iter().enumerate() {
        let idx = m.nimports + i;
        let (code, tabs, nl) = compile(&m, idx, &b[s..e]);
        let f = &mut m.funcs[idx];
        f.code = code;
        f.brtabs = tabs;
        f.nlocals = nl;
    }
    m
}

struct Ctl {
    kind: u8, // 2 block, 3 loop, 4 if, 0 func
    height: usize,
    nparams: usize,
    nresults: usize,
    start: u32,
    fix: Vec<usize>,            // instr indexes whose .a is to be patched to end
    fixt: Vec<(usize, usize)>,  // (table, entry)
    else_fix: Option<usize>,
    unreachable: bool,
}

fn compile(m: &Module, fidx: usize, body: &[u8]) -> (Vec<Ins>, Vec<Vec<(u32, u32, u64)>>, u32) {
    let fty = &m.types[m.funcs[fidx].ty as usize];
    let mut r = R { b: body, p: 0 };
    let mut nl = fty.params.len() as u32;
    let g = r.u32();
    for _ in 0..g {
        nl += r.u32();
        r.u8();
    }
    let mut code: Vec<Ins> = vec![];
    let mut tabs: Vec<Vec<(u32, u32, u64)>> = vec![];
    let mut ctl: Vec<Ctl> = vec![Ctl {
        kind: 0,
        height: 0,
        nparams: 0,
        nresults: fty.results.len(),
        start: 0,
        fix: vec![],
        fixt: vec![],
        else_fix: None,
        unreachable: false,
    }];
    let mut h: usize = 0; // operand height
    let ins = |op: u16, a: u32, b: u32, imm: u64| Ins { op, a, b, imm };
    while r.p < body.len() {
        let op = r.u8();
        let dead = ctl.last().unwrap().unreachable;
        match op {
            0x00 => {
                if !dead {
                    code.push(ins(0, 0, 0, 0));
                    ctl.last_mut().unwrap().unreachable = true;
                }
            }
            0x01 => {}
            0x02 | 0x03 | 0x04 => {
                let bt = r.sleb(33);
                let (np, nr) = if bt == -64 {
                    (0, 0)
                } else if bt < 0 {
                    (0, 1)
                } else {
                    let t = &m.types[bt as usize];
                    (t.params.len(), t.results.len())
                };
                let mut else_fix = None;
                if op == 0x04 && !dead {
                    h -= 1;
                    else_fix = Some(code.len());
                    code.push(ins(OP_BRIFZ, 0, 0, 0));
                }
                ctl.push(Ctl {
                    kind: op,
                    height: if dead { h } else { h - np },
                    nparams: np,
                    nresults: nr,
                    start: code.len() as u32,
                    fix: vec![],
                    fixt: vec![],
                    else_fix,
                    unreachable: dead,
                });
                if dead {
                    // nested in dead code: everything inside is dead
                    ctl.last_mut().unwrap().kind |= 0x80;
                }
            }
            0x05 => {
                let c = ctl.last_mut().unwrap();
                if c.kind & 0x80 != 0 {
                    continue;
                }
                if !c.unreachable {
                    let at = code.len();
                    code.push(ins(OP_JMP, 0, 0, 0));
                    c.fix.push(at);
                }
                let here = code.len() as u32;
                if let Some(f) = c.else_fix.take() {
                    code[f].a = here;
                }
                c.unreachable = false;
                h = c.height + c.nparams;
            }
            0x0b => {
                let c = ctl.pop().unwrap();
                if c.kind & 0x80 != 0 {
                    continue;
                }
                let here = code.len() as u32;
                if let Some(f) = c.else_fix {
                    code[f].a = here;
                }
                for f in c.fix {
                    code[f].a = here;
                }
                for (t, e) in c.fixt {
                    tabs[t][e].0 = here;
                }
                h = c.height + c.nresults;
                if c.kind == 0 {
                    code.push(ins(OP_RET, 0, 0, 0));
                    break;
                }
            }
            0x0c | 0x0d => {
                let d = r.u32() as usize;
                if dead {
                    continue;
                }
                if op == 0x0d {
                    h -= 1;
                }
                let n = ctl.len();
                let at = code.len();
                let c = &mut ctl[n - 1 - d];
                let ar = if c.kind == 3 { c.nparams } else { c.nresults };
                code.push(ins(if op == 0x0c { OP_BR } else { OP_BRIF }, 0, ar as u32, c.height as u64));
                if c.kind == 3 {
                    code[at].a = c.start;
                } else {
                    c.fix.push(at);
                }
                if op == 0x0c {
                    ctl.last_mut().unwrap().unreachable = true;
                }
            }
            0x0e => {
                let cnt = r.u32() as usize;
                let ds: Vec<usize> = (0..=cnt).map(|_| r.u32() as usize).collect();
                if dead {
                    continue;
                }
                h -= 1;
                let t = tabs.len();
                let mut v = vec![];
                let n = ctl.len();
                for (i, d) in ds.iter().enumerate() {
                    let c = &mut ctl[n - 1 - d];
                    let ar = if c.kind == 3 { c.nparams } else { c.nresults };
                    v.push((c.start, ar as u32, c.height as u64));
                    if c.kind != 3 {
                        c.fixt.push((t, i));
                    }
                }
                tabs.push(v);
                code.push(ins(OP_BRTABLE, t as u32, 0, 0));
                ctl.last_mut().unwrap().unreachable = true;
            }
            0x0f => {
                if !dead {
                    code.push(ins(OP_RET, 0, 0, 0));
                    ctl.last_mut().unwrap().unreachable = true;
                }
            }
            0x10 => {
                let f = r.u32();
                if dead {
                    continue;
                }
                let t = &m.types[m.funcs[f as usize].ty as usize];
                h = h - t.params.len() + t.results.len();
                code.push(ins(0x10, f, 0, 0));
            }
            0x11 => {
                let ty = r.u32();
                let tb = r.u32();
                assert_eq!(tb, 0);
                if dead {
                    continue;
                }
                let t = &m.types[ty as usize];
                h = h - 1 - t.params.len() + t.results.len();
                code.push(ins(0x11, ty, 0, 0));
            }
            0x1a => {
                if dead {
                    continue;
                }
                h -= 1;
                code.push(ins(0x1a, 0, 0, 0));
            }
            0x1b | 0x1c => {
                if op == 0x1c {
                    let n = r.u32();
                    for _ in 0..n {
                        r.u8();
                    }
                }
                if dead {
                    continue;
                }
                h -= 2;
                code.push(ins(0x1b, 0, 0, 0));
            }
            0x20..=0x24 => {
                let i = r.u32();
                if dead {
                    continue;
                }
                match op {
                    0x20 | 0x23 => h += 1,
                    0x21 | 0x24 => h -= 1,
                    _ => {}
                }
                code.push(ins(op as u16, i, 0, 0));
            }
            0x28..=0x3e => {
                let _al = r.u32();
                let off = r.leb();
                if dead {
                    continue;
                }
                if op >= 0x36 {
                    h -= 2;
                }
                code.push(ins(op as u16, 0, 0, off));
            }
            0x3f | 0x40 => {
                r.u8();
                if dead {
                    continue;
                }
                if op == 0x3f {
                    h += 1;
                }
                code.push(ins(op as u16, 0, 0, 0));
            }
            0x41 => {
                let v = r.sleb(32) as u32 as u64;
                if dead {
                    continue;
                }
                h += 1;
                code.push(ins(0x41, 0, 0, v));
            }
            0x42 => {
                let v = r.sleb(64) as u64;
                if dead {
                    continue;
                }
                h += 1;
                code.push(ins(0x41, 0, 0, v));
            }
            0x43 => {
                let v = u32::from_le_bytes(r.bytes(4).try_into().unwrap()) as u64;
                if dead {
                    continue;
                }
                h += 1;
                code.push(ins(0x41, 0, 0, v));
            }
            0x44 => {
                let v = u64::from_le_bytes(r.bytes(8).try_into().unwrap());
                if dead {
                    continue;
                }
                h += 1;
                code.push(ins(0x41, 0, 0, v));
            }
            0x45..=0xc4 => {
                if dead {
                    continue;
                }
                let unary = matches!(op, 0x45 | 0x50 | 0x67..=0x69 | 0x79..=0x7b | 0x8b..=0x91 | 0x99..=0x9f | 0xa7..=0xc4);
                if !unary {
                    h -= 1;
                }
                code.push(ins(op as u16, 0, 0, 0));
            }
            0xfc => {
                let sub = r.u32();
                match sub {
                    0..=7 => {}
                    10 => {
                        r.u8();
                        r.u8();
                    }
                    11 => {
                        r.u8();
                    }
                    _ => panic!("0xfc {sub}"),
                }
                if dead {
                    continue;
                }
                if sub >= 8 {
                    h -= 3;
                }
                code.push(ins(0x100 + sub as u16, 0, 0, 0));
            }
            _ => panic!("opcode {op:x}"),
        }
    }
    (code, tabs, nl)
}
