import sys
p=sys.argv[1]
t=open(p).read()
def rep(a,b,n=1):
    global t
    assert t.count(a)>=1,(a)
    t=t.replace(a,b,n)
rep("pub struct Exec {","""pub struct Fix {
    inp: std::collections::VecDeque<String>,
    conc: bool,
    uppers: std::collections::VecDeque<u64>,
    upf: Option<std::fs::File>,
    log: std::io::BufWriter<std::fs::File>,
}
impl Fix {
    fn new() -> Option<Fix> {
        let inp = std::env::var("SYM_FIX").ok()?;
        let inp = std::fs::read_to_string(inp).unwrap().lines().filter(|l| !l.starts_with('#')).map(|l| l.to_string()).collect();
        let conc = std::env::var("SYM_CONC").is_ok();
        let uppers = if conc { std::fs::read_to_string("/tmp/uppers").unwrap().lines().map(|x| x.parse().unwrap()).collect() } else { Default::default() };
        let upf = if conc { None } else { std::fs::File::create("/tmp/uppers").ok() };
        let log = std::io::BufWriter::new(std::fs::File::create(if conc { "/tmp/log-conc" } else { "/tmp/log-sym" }).unwrap());
        Some(Fix { inp, conc, uppers, upf, log })
    }
    fn next(&mut self) -> Vec<u64> {
        let l = self.inp.pop_front().unwrap_or_else(|| { use std::io::Write; self.log.flush().unwrap(); panic!("inputs exhausted") });
        l.split(' ').skip(1).map(|x| x.split(':').map(|y| y.parse::<u64>().unwrap()).collect::<Vec<_>>()).flatten().collect()
    }
}
pub struct Exec {
    fix: Option<Fix>,""")
rep("            sample_skip: 0","            fix: Fix::new(),\n            sample_skip: 0") if "            sample_skip: 0" in t else rep("sample_skip: 0","sample_skip: 0, fix: Fix::new()")
rep("""        let mv = self.ctx.eval(c, &s.model) == 1;
        let neg""","""        let mv = self.ctx.eval(c, &s.model) == 1;
        if self.fix.is_some() {
            let neg = self.ctx.not(c);
            self.add_pc(s, if mv { c } else { neg });
            return Ok(mv);
        }
        let neg""")
rep("""let (_, e) = self.ctx.new_var(64, lo, hi);
                    s.log.push(Log::U(e, 0));
                    ret = Some(Val { c: 0, e });""","""if let Some(f) = &mut self.fix {
                        let v = f.next()[0];
                        if f.conc {
                            s.log.push(Log::U(0, v));
                            ret = Some(Val::k(v));
                        } else {
                            let (id, e) = self.ctx.new_var(64, lo, hi);
                            let mut m = (*s.model).clone();
                            m.vars.insert(id, v);
                            s.model = Rc::new(m);
                            self.ctx.cur_model = s.model.clone();
                            ret = Some(Val { c: 0, e });
                        }
                    } else {
                    let (_, e) = self.ctx.new_var(64, lo, hi);
                    s.log.push(Log::U(e, 0));
                    ret = Some(Val { c: 0, e });
                    }""")
rep("""                let k = args[0].c as u32;
                s.st.truncate(n - np);
""","""                let k = args[0].c as u32;
                s.st.truncate(n - np);
                if let Some(f) = &mut self.fix {
                    let v = f.next()[0];
                    s.st.push(Val::k(v));
                    return Ok(());
                }
""")
rep("""                if lo == hi {
                    s.log""","""                if lo == hi {
                    if let Some(f) = &mut self.fix { f.next(); }
                    s.log""")
rep("""                if l <= 64 {
                    let mut ids""","""                if let Some(f) = &mut self.fix {
                    let v = f.next();
                    if f.conc {
                        let mut b = vec![0u8; l as usize];
                        for x in v[1..].chunks(2) { b[x[0] as usize] = x[1] as u8; }
                        s.mem.write_conc(&self.ar, p, &b);
                    } else {
                        let mut m = (*s.model).clone();
                        if l <= 64 {
                            for i in 0..l {
                                let (id, e) = self.ctx.new_var(8, 0, 255);
                                m.vars.insert(id, v[1..].chunks(2).find(|x| x[0] == i).map(|x| x[1]).unwrap_or(0));
                                s.mem.store_byte(&self.ctx, &self.ar, p + i, e);
                            }
                        } else {
                            let a = self.ctx.narr;
                            self.ctx.narr += 1;
                            m.arrs.insert(a, v[1..].chunks(2).map(|x| (x[0], x[1] as u8)).collect());
                            let (oe, le) = (self.ctx.konst(p, 64), self.ctx.konst(l, 64));
                            s.mem.add_region(&mut self.ctx, &mut self.ar, oe, le, p, p + l, Src::Arr(a, 0));
                        }
                        s.model = Rc::new(m);
                        self.ctx.cur_model = s.model.clone();
                    }
                } else if l <= 64 {
                    let mut ids""")
rep("""                ret = Some(Val::k(v));
            }
            ("sym", "allow_trap")""","""                let mut v = v;
                if let Some(f) = &mut self.fix {
                    use std::io::Write;
                    if f.conc { v = f.uppers.pop_front().unwrap(); } else { writeln!(f.upf.as_mut().unwrap(), "{v}").unwrap(); }
                }
                ret = Some(Val::k(v));
            }
            ("sym", "allow_trap")""")
rep("""self.load(s, a, ins.imm, n)?""","""{
                                let v = self.load(s, a, ins.imm, n)?;
                                if self.fix.is_some() {
                                    let av = if a.e == 0 { a.c } else { self.ctx.eval(a.e, &s.model) };
                                    let vv = if v.e == 0 { v.c } else { self.ctx.eval(v.e, &s.model) };
                                    let e = if v.e == 0 { String::new() } else { self.ctx.show(v.e, 9) };
                                    let fr = s.fr.last().unwrap();
                                    let (fu, pc) = (fr.func, fr.pc);
                                    let nm = self.stack_names(s);
                                    use std::io::Write;
                                    writeln!(self.fix.as_mut().unwrap().log, "{fu} {pc} {} {vv}\\t{nm}\\t{e}", av.wrapping_add(ins.imm) as u32).unwrap();
                                }
                                v
                            }""")
open(p,'w').write(t)
rep("""v = s.mem.load_conc(&self.ar, ad, n).map(Val::k);
                    }""","""v = s.mem.load_conc(&self.ar, ad, n).map(Val::k);
                        if let (Some(v), true) = (v, self.fix.is_some()) {
                            let (fu, pc) = (s.fr[fi].func, pc);
                            let nm = self.stack_names(s);
                            use std::io::Write;
                            writeln!(self.fix.as_mut().unwrap().log, "{fu} {pc} {ad} {}\\t{nm}\\tconc", v.c).unwrap();
                        }
                    }""")
t=t.replace("let (fu, pc) = (fr.func, fr.pc);","let fu = fr.func;").replace("self.fix.is_some() {\n                                    let av","self.fix.is_some() {\n                                    let pc = pc;\n                                    let av")
open(p,'w').write(t)
rep("    fn copy(&mut self, s: &mut State, d_st: bool, d: E, s_st: bool, f: E, n: E) -> R<()> {","""    fn copy(&mut self, s: &mut State, d_st: bool, d: E, s_st: bool, f: E, n: E) -> R<()> {
        let r = self.copy0(s, d_st, d, s_st, f, n);
        if self.fix.is_some() {
            let (dv, fv, nv) = (self.ctx.eval(d, &s.model), self.ctx.eval(f, &s.model), self.ctx.eval(n, &s.model));
            let mut t = String::new();
            let mut show = String::new();
            let dst = if d_st { s.stable.clone() } else { s.mem.clone() };
            for i in (0..nv.min(24)).chain(nv.max(32) - 8..nv) {
                let b = dst.byte(&mut self.ctx, &mut self.ar, dv + i);
                self.ctx.stuck = None;
                t.push_str(&format!(" {}", self.ctx.eval(b, &s.model)));
                if i == 0 { show = self.ctx.show(b, 9); }
            }
            let nm = self.stack_names(s);
            use std::io::Write;
            let a = format!("{} {} {}", self.ctx.show(d, 6), self.ctx.show(f, 6), self.ctx.show(n, 6));
            writeln!(self.fix.as_mut().unwrap().log, "copy {d_st} {dv} {s_st} {fv} {nv} {t}\\t{nm}\\t{a}\\t{show}").unwrap();
        }
        r
    }
    fn copy0(&mut self, s: &mut State, d_st: bool, d: E, s_st: bool, f: E, n: E) -> R<()> {""")
open(p,'w').write(t)
rep("""            let nm = self.stack_names(s);
            use std::io::Write;
            let a = format!""","""            for x in [d, f, n] {
                let mut todo = vec![x];
                let mut seen = std::collections::HashSet::new();
                while let Some(y) = todo.pop() {
                    if !seen.insert(y) { continue; }
                    let (l, h) = self.ctx.iv(y);
                    let v = self.ctx.eval(y, &s.model);
                    if v < l || v > h {
                        eprintln!("BAD iv {l}..{h} for {v}: {}", self.ctx.show(y, 5));
                    }
                    let nn = self.ctx.n(y);
                    if nn.a != 0 { todo.push(nn.a); }
                    if nn.b != 0 { todo.push(nn.b); }
                    if nn.op == Op::Ite { todo.push(nn.imm as E); }
                }
            }
            let nm = self.stack_names(s);
            use std::io::Write;
            let a = format!""")
open(p,'w').write(t)
rep("        let (lo, hi) = self.extent(s, d, n)?;\n        let src","        let (lo, hi) = self.extent(s, d, n)?;\n        if self.fix.is_some() { let m = s.model.clone(); let (dv, nv, fv) = (self.ctx.eval(d, &m), self.ctx.eval(n, &m), self.ctx.eval(f, &m)); eprintln!(\"COPY d {dv} f {fv} n {nv} lo {lo} hi {hi} d_st {d_st} {:?} {:?} {:?}\", self.ctx.iv(d), self.ctx.iv(f), self.ctx.iv(n)); }\n        let src")
open(p,'w').write(t)
