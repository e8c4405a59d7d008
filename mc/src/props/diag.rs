//! A06 and A09: refusals and their line numbers; feeding in pieces, emitting repeatedly.
use super::asm::{a01_alphabet, programs, push_imm, show, Cx, LANG, V};
use crate::asmref::*;
use crate::fw::*;
use crate::macho;
use at_asm::Assembler;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "A06",
            level: "model_checking",
            run: a06,
            bounds: |t| format!("about 1000 characters in comments and strings before malformed lines, and 340 at every place of 14 lines without names; words of other assemblers in 34 operand forms; programs with 1..=520, 65537 malformed lines; every line of up to {} tokens over 19 tokens (mnemonics, directives, registers of three widths, numbers, a string, commas, labels) that an independent recogniser rejects; every line one character edit (95 printable characters and tab, inserted, replaced, removed) away from 29 valid lines, and every surplus word out of 110 at every gap of them{}, each judged by a recogniser; 110 malformed lines at lines 1..=12 and around 100, 128, 255 and 1000, in every section, with every ending and every kind of follower, also at lines 65535..=65537 and 2^17; behind every {} of 29 kinds of lines; at every place of two sources of about 2400 lines in which every kind of line stands behind every other; every truncation of valid lines; every one of the 10 malformed lines after every program of up to {} lines; every program of up to 4 lines that uses an undefined label or fills the zero-fill section", if t == Tier::Thorough { 5 } else { 4 }, if t == Tier::Thorough { ", every pair of edits over 15 characters, every pair of surplus words" } else { "" }, if t == Tier::Thorough { "three" } else { "two" }, if t == Tier::Thorough { 5 } else { 4 }),
            assumptions: &[LANG, "forms on which the language may be extended without harm are not judged: blank-separated or missing data items, label and statement on one line, push of a label or 16-bit register, mov of a label into a 16-bit register, ret with a number, odd label names", "a diagnostic gives the line number when the number stands in it as a token of its own"],
        },
        Prop {
            id: "A09",
            level: "model_checking",
            run: a09,
            bounds: |t| format!("one assembler in several threads (every choice for up to 9 pieces and 2 emissions); another assembler at work in every read and write; 1..=530, 65537 pieces between two emissions and emissions in a row; every program of up to {} lines over 14 lines, with every set of cuts at line ends and every set of emissions between the pieces; {} programs of 8 to 9 lines with all cuts and emissions; two assemblers in every interleaving of their pieces; up to 70000 lines cut in two and three; line numbers of diagnostics for every cut position x error position up to 12 lines and around 256 and 65536; line numbers of two assemblers fed up to {} pieces in every order of turns; long programs in which 16 kinds of lines follow one another, cut at every one and pair of places and in pieces of every size up to 64 lines; two assemblers in two threads, for 3 pairs of programs, with every schedule of up to two changes of turn{} at reads (of a line) and writes", if t == Tier::Thorough { 5 } else { 4 }, 6, if t == Tier::Thorough { 7 } else { 6 }, if t == Tier::Thorough { " (a third one at every eighth)" } else { "" }),
            assumptions: &[LANG, "threads take turns at reads and writes only", "pieces are cut behind a line end; emission is only demanded where the text so far is a valid program"],
        },
    ]
}

/// Does `n` stand in the text as a number of its own?
fn gives_number(text: &str, n: usize) -> bool {
    let want = n.to_string();
    text.split(|c: char| !c.is_ascii_digit()).any(|t| t == want)
}
fn message(e: &Ended) -> String {
    let mut m = e.stderr.clone();
    if let End::Panicked(p) = &e.end {
        // without the position in the source of the code under test
        let p = p.rsplit_once(" (at ").map_or(p.as_str(), |x| x.0);
        m.push_str(p);
    }
    m
}

/// Feeding `pieces` must be refused; with `line`, the diagnostic must give that number.
fn refused(w: &mut W, pieces: &[&str], line: Option<usize>) -> Result<(), String> {
    let what = || {
        let t = pieces.concat();
        let n = t.len();
        if n > 700 {
            let (mut a, mut b) = (200, n - 400);
            while !t.is_char_boundary(a) {
                a -= 1
            }
            while !t.is_char_boundary(b) {
                b -= 1
            }
            format!("program {:?} ... ({n} bytes) ... {:?}", &t[..a], &t[b..])
        } else {
            format!("program {t:?}")
        }
    };
    w.note(what);
    w.transitions += 1;
    w.executed(1);
    w.refused += 1;
    let e = w.forked(|| {
        let mut a = Assembler::new();
        for p in pieces {
            a.read_from(&mut p.as_bytes());
        }
        let mut out = vec![];
        a.write_into(&mut out);
        out
    });
    match &e.end {
        End::Returned(_) => return Err(format!("accepted without a complaint\n  {}", what())),
        End::Exited(0) => return Err(format!("refused, but the run ends with status 0\n  {}", what())),
        End::Killed(s) => return Err(format!("the run is ended by signal {s}\n  {}", what())),
        _ => {}
    }
    w.outcome(&(matches!(e.end, End::Panicked(_)), message(&e)));
    if let Some(n) = line {
        let m = message(&e);
        if !gives_number(&m, n) {
            return Err(format!("refused with {:?}, which does not give line {n}\n  {}", clip(&m, 300), what()));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- the recogniser
#[derive(Clone, Copy, PartialEq, Debug)]
enum Verdict {
    Valid,
    Invalid,
    /// refused at the latest when emitting, possibly without a line number
    Refused,
    Open,
}

fn regw(t: &str) -> Option<u8> {
    match t {
        "rax" | "r9" => Some(64),
        "eax" => Some(32),
        "ax" => Some(16),
        _ => None,
    }
}
fn num(t: &str) -> bool {
    t.starts_with(|c: char| c.is_ascii_digit())
}
/// `a` is the only defined label; 300 the only number above 255.
fn judge(t: &[&str]) -> Verdict {
    use Verdict::*;
    let name = |x: &str| matches!(x, "a" | "u");
    match t {
        [] => Valid,
        ["section", ".text"] => Valid,
        ["section", ..] => {
            // a data label may be called anything
            if t.len() > 2 && t[1] == "db" { Open } else { Invalid }
        }
        ["global", x] if name(x) => Valid,
        ["global", _] => Open,
        ["global"] => Invalid,
        ["global", "db", ..] => Open,
        ["global", ..] => Invalid,
        ["b:"] => Valid,
        ["b:", ..] => Open,
        ["db", rest @ ..] => items(rest),
        [x, "db", rest @ ..] => {
            let r = items(rest);
            if r == Invalid || rest.is_empty() {
                return Invalid;
            }
            if *x == "u" { r } else { Open }
        }
        ["mov", d, ",", ops @ ..] => match (regw(d), ops) {
            (Some(_), []) => Invalid,
            (Some(w), [s]) => match regw(s) {
                Some(v) if v == w => Valid,
                Some(_) => Invalid,
                None if num(s) => Valid,
                None if *s == "a" && w > 16 => Valid,
                None if w == 16 => if *s == "," || s.contains('"') || s.contains(':') { Invalid } else { Open },
                None if *s == "," || s.contains('"') || s.contains(':') || *s == "+" => Invalid,
                None => Refused,
            },
            (Some(_), [a, "+", b]) if num(a) && num(b) => Valid,
            (Some(_), [a, "+", b]) if num(a) && *b == "a" || *a == "a" && num(b) => Open,
            (Some(_), ["+", b]) if num(b) => Open,
            (Some(_), _) => Invalid,
            (None, _) => Invalid,
        },
        ["mov", ..] => Invalid,
        ["push", "rax" | "r9"] => Valid,
        ["push", x] if num(x) => Valid,
        ["push", "ax" | "a" | "u"] => Open,
        ["push", a, "+", b] if num(a) && num(b) => Open,
        ["push", "+", b] if num(b) => Open,
        ["push", ..] => Invalid,
        ["ret"] | ["syscall"] => Valid,
        ["ret", x] if num(x) => Open,
        ["ret", ..] | ["syscall", ..] => Invalid,
        _ => Invalid,
    }
}
fn items(t: &[&str]) -> Verdict {
    use Verdict::*;
    if t.is_empty() {
        return Invalid;
    }
    let item = |x: &str| num(x) || x == "\"s\"";
    if t.contains(&"300") {
        return Invalid;
    }
    if t.iter().all(|x| item(x) || *x == ",") {
        let good = t.len() % 2 == 1 && t.iter().enumerate().all(|(i, x)| if i % 2 == 0 { item(x) } else { *x == "," });
        return if good { Valid } else { Open };
    }
    if t.contains(&"+") && t.iter().all(|x| item(x) || *x == "," || *x == "+") {
        return Open;
    }
    // data items that name a label are no part of the language, but may become one
    if t.iter().all(|x| item(x) || *x == "," || *x == "a" || *x == "u") {
        return Invalid;
    }
    Invalid
}

/// A line as characters (printable ASCII and tabs), judged in front of `ret` and `a:`.
fn judge_line(l: &str) -> Verdict {
    use Verdict::*;
    let mut quoted = false;
    let mut end = l.len();
    for (i, c) in l.char_indices() {
        match c {
            '"' => quoted = !quoted,
            ';' if !quoted => {
                end = i;
                break;
            }
            _ => {}
        }
    }
    let blank = |c: char| c == ' ' || c == '\t';
    let l = l[..end].trim_matches(blank);
    let t: Vec<&str> = l.split(blank).filter(|t| !t.is_empty()).collect();
    let after = |n: usize| -> &str {
        let mut r = l;
        for x in &t[..n] {
            r = r.trim_start_matches(blank).strip_prefix(x).unwrap();
        }
        r.trim_matches(blank)
    };
    let plain = |x: &str| x.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && x.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
    let width = |x: &str| DATA_WORDS.iter().position(|d| *d == x);
    let judge = |v: V| match v {
        V::Exact(_) => Valid,
        V::Bad => Invalid,
        _ => Open,
    };
    let numeric = |x: &str| x.starts_with(|c: char| c.is_ascii_digit() || c == '+' || c == '-');
    let Some(&first) = t.first() else { return Valid };
    if first != "section" && first != "global" && first.contains(':') {
        let name = first.trim_end_matches(':');
        return if t.len() == 1 && plain(name) && first.len() == name.len() + 1 && name != "a" && reg(name) == R::None { Valid } else { Open };
    }
    match first {
        "section" => match &t[1..] {
            [".text" | ".data" | ".bss"] => Valid,
            [d, ..] if width(d).is_some() => Open,
            _ => Invalid,
        },
        "global" => match &t[1..] {
            [d, ..] if width(d).is_some() => Open,
            [x] if plain(x) => Valid,
            [_] => Open,
            _ => Invalid,
        },
        _ if width(first).is_some() => {
            let r = data_items(width(first).unwrap(), after(1));
            // `db db 1` may also be a label called db
            if r == Invalid && t.len() > 2 && width(t[1]).is_some() { Open } else { r }
        }
        _ if t.len() > 1 && width(t[1]).is_some() => match data_items(width(t[1]).unwrap(), after(2)) {
            Invalid => Invalid,
            r if plain(first) && !["a", "mov", "push", "ret", "syscall"].contains(&first) && reg(first) == R::None => r,
            _ => Open,
        },
        "mov" => {
            let ops: Vec<&str> = after(1).split(',').map(|x| x.trim_matches(blank)).collect();
            let [d, s] = ops[..] else { return Invalid };
            let R::Of(w) = reg(d) else { return if reg(d) == R::Odd { Open } else { Invalid } };
            match reg(s) {
                R::Of(v) => return if v == w { Valid } else { Invalid },
                R::Odd => return Open,
                R::None => {}
            }
            if numeric(s) {
                return judge(Cx::Mov(w, 0).value(s));
            }
            if s.is_empty() || s.contains('"') || s.contains(':') {
                return Invalid;
            }
            match s.split(blank).filter(|x| !x.is_empty()).count() {
                1 if w == 16 => Open,
                1 if s == "a" => Valid,
                1 if s.contains('+') || s.contains('-') => Open,
                1 => Refused,
                _ if s.contains('+') || s.contains('-') => Open,
                _ => Invalid,
            }
        }
        "push" => match &t[1..] {
            [x] if reg(x) == R::Of(64) => Valid,
            [x] if reg(x) == R::Of(16) || reg(x) == R::Odd => Open,
            [x] if reg(x) == R::Of(32) => Invalid,
            [x, ..] if numeric(x) => judge(Cx::Push.value(after(1))),
            [x] if plain(x) => Open,
            _ => Invalid,
        },
        "ret" | "syscall" => match &t[1..] {
            [] => Valid,
            [x] if first == "ret" && numeric(x) => Open,
            _ => Invalid,
        },
        _ => Invalid,
    }
}
const DATA_WORDS: [&str; 4] = ["db", "dw", "dd", "dq"];
#[derive(PartialEq)]
enum R {
    Of(u8),
    /// not a register of the language, but might be one or be spelled as one
    Odd,
    None,
}
fn reg(x: &str) -> R {
    use crate::x86::{R16, R32, R64};
    for (w, n) in [(64, R64), (32, R32), (16, R16)] {
        if n.contains(&x) {
            return R::Of(w);
        }
        if n.contains(&x.to_ascii_lowercase().as_str()) {
            return R::Odd;
        }
    }
    let y = x.to_ascii_lowercase();
    let legacy = ["al", "bl", "cl", "dl", "ah", "bh", "ch", "dh", "sil", "dil", "bpl", "spl", "ip", "eip", "rip", "cs", "ds", "es", "fs", "gs", "ss"];
    let numbered = y.strip_prefix('r').map_or(false, |r| r.trim_end_matches(|c: char| "bwdl".contains(c)).parse::<u8>().map_or(false, |n| n < 32));
    let named = y.len() == 3 && (y.starts_with("cr") || y.starts_with("dr") || y.starts_with("mm") || y.starts_with("st"));
    if legacy.contains(&y.as_str()) || numbered || named { R::Odd } else { R::None }
}
fn data_items(width: usize, s: &str) -> Verdict {
    use Verdict::*;
    let blank = |c: char| c == ' ' || c == '\t';
    let mut open = false;
    // at every comma: the items since the last one
    let mut part: Vec<String> = vec![];
    let mut cur = String::new();
    let mut glued = false;
    let mut it = s.chars().peekable();
    let mut parts: Vec<Vec<String>> = vec![];
    while let Some(c) = it.next() {
        if c == '"' && cur.is_empty() {
            let mut closed = false;
            for c in it.by_ref() {
                if c == '"' {
                    closed = true;
                    break;
                }
            }
            if !closed {
                return Invalid;
            }
            part.push("\"".into());
            glued = it.peek().map_or(false, |&c| !blank(c) && c != ',');
            open |= glued;
        } else if blank(c) || c == ',' {
            if !cur.is_empty() {
                part.push(std::mem::take(&mut cur));
            }
            if c == ',' {
                parts.push(std::mem::take(&mut part));
            }
        } else {
            cur.push(c);
        }
    }
    let _ = glued;
    if !cur.is_empty() {
        part.push(cur);
    }
    parts.push(part);
    if parts.iter().all(|p| p.is_empty()) {
        return if s.contains(',') { Open } else { Invalid };
    }
    let mut bad = false;
    for p in &parts {
        open |= p.len() != 1;
        let mut text = vec![];
        for x in p {
            if x != "\"" {
                text.push(x.as_str());
            }
        }
        let mut each = false;
        for x in &text {
            match Cx::D(width).value(x) {
                V::Exact(_) => {}
                V::Bad => each = true,
                _ => open = true,
            }
        }
        // an expression, perhaps
        if each && text.len() > 1 && Cx::D(width).value(&text.join(" ")) != V::Bad {
            open = true;
        } else {
            bad |= each;
        }
    }
    if bad { Invalid } else if open { Open } else { Valid }
}

/// Runs one line at line `n` >= 3 behind `ret` and `a:` and holds the result against the verdict.
fn judged(w: &mut W, l: &str) -> Result<(), String> {
    let v = judge_line(l);
    let n = [41usize, 43, 52].into_iter().find(|&n| !gives_number(l, n)).unwrap();
    match v {
        Verdict::Open => Ok(()),
        Verdict::Valid => {
            w.note(|| l.into());
            w.state(l);
            w.transitions += 1;
            w.executed(1);
            // a refusal would end the process
            let e = w.forked(|| assemble(format!("ret\na:\n{l}\n").as_bytes()).unwrap_or_else(|m| panic!("{m}")));
            match e.end {
                End::Returned(b) => macho::read(&b).map(|_| ()),
                _ => Err(format!("the valid line {l:?} was refused: {}", clip(&message(&e), 300))),
            }
        }
        Verdict::Refused => {
            w.state(l);
            refused(w, &[&format!("ret\na:\n{l}\n")], None)
        }
        Verdict::Invalid => {
            w.state(l);
            let head = "ret\na:\n".to_string() + &"\n".repeat(n - 3);
            refused(w, &[&format!("{head}{l}\n")], Some(n))
        }
    }
}

/// Valid lines, one and two character edits away from which everything is tried.
const SEEDS: &[&str] = &[
    "section .text", "section .data", "section .bss", "global a", "b:", "lab_1:", "ret", "syscall", "push rax", "push r12", "push 77", "push 0x1f",
    "mov rax, rbx", "mov r10d, esi", "mov ax, r9w", "mov rdi, a", "mov ecx, a", "mov rsp, 65", "mov r8d, 0xfe", "mov di, 9", "mov rbp, 8 + 6", "mov edx, 0x9 - 2",
    "db 1", "dw 0x2, 3", "x dd 5", "y dq \"ab\", 9", "db \"a;b\"", "db 255, \"q\" ; c", "",
];
const SURPLUS: &[&str] = &[
    "__TEXT", "__DATA", "__bss", "_a", "a", "b", "rax", "eax", "ax", "al", "1", "0", "0x1", "0x", "1x", "-1", "+1", "+", "-", "*", "/", "=", "==", "%", "&", "|", "^", "~", "!", "?", "@", "#", "$", "'", "`", "\\",
    "(", ")", "[", "]", "{", "}", "<", ">", ".", ",", ":", ",,", "\"", "\"\"", "\"x\"", "'x'", "//", "/*", "*/", "# c", "// c", "-- c", "/* c */", ".text", ".data", ".bss", "text", "align=8", "align 8", "exec", "nowrite", "progbits", "write",
    "mov", "push", "ret", "syscall", "section", "global", "extern", "db", "dq", "dw 1", "db 1", "equ", "equ 1", "times 2", "rel", "qword", "dword", "byte", "ptr", "word", "short", "_", "$a", "a:", "b:", "x y", "x y z", "\\n", "nop", ".a", ".1", "1.", "1_", "0b1", "1h", "rbx, rcx", ", rbx", ", 1", ", a", "rax,", "1,", "a,",
];

const MALFORMED: &[&str] = &[
    "hoge", "hoge rax", "hoge rax, 1", "movv rax, 1", "mo rax, 1", "retn", "rett", "re", "pushh rax", "pus rax", "syscal", "syscalls", "movrax, 1", "pushrax",
    "mov", "mov rax", "mov rax,", "mov ,", "mov , 1", "mov ,rax", "mov rax 1", "mov rax rbx", "mov rax, rbx, rcx", "mov rax, 1, 9", "mov rax, rbx rcx", "mov rax rbx, rcx", "mov rax,, rbx",
    "mov rax, eax", "mov eax, rax", "mov ax, eax", "mov eax, ax", "mov ax, rax", "mov rax, ax", "mov r8, r8d", "mov r8d, r8", "mov r8w, r8d", "mov r15d, r15w",
    "mov 1, rax", "mov 5, 5", "mov foo, rax", "mov foo, 1", "mov foo, foo", "mov \"a\", rax", "mov rax, \"a\"", "mov eax, \"\"", "mov rax, a:", "mov rax, a b", "mov rax, a + b", "mov rax, (a)", "mov rax, a, a",
    "mov ax, 65536", "mov eax, 4294967296", "mov rax, 18446744073709551616", "mov eax, 0 - 1", "mov ax, 65535 + 1", "mov rax, 1 + 2 + 5", "mov rax, 1 +", "mov rax, 1 + x", "mov rax, 1 + rbx", "mov rax, 1 2", "mov rax, 0x", "mov rax, 0xg", "mov rax, 1x",
    "push", "push rax rbx", "push rax, rbx", "push 1 2", "push 1, 2", "push rax,", "push ,", "push eax", "push r8d", "push 4294967296", "push 0x", "push 0xg1", "push 1x", "push \"a\"", "push push",
    "ret ret", "ret foo", "ret,", "syscall 1", "syscall rax", "syscall,", "section", "section .foo", "section text", "section .text .data", "section .text,", "section .tex", "section .textt", "section .bss x",
    "global", "global a b", "global a, b", "db", "x db", "dw ", "db 256", "db 1, 256", "x db 256, 1", "dw 65536", "dd 4294967296", "dq 18446744073709551616", "db \"abc", "x dq \"abc",
];
const MALFORMED2: &[&str] = &[
    "db 1, \"abc", "db \"a\", \"", "db abc\"", "db foo", "db 1, foo", "db 1,,9", "db ,1", "db 0x", "db 0xfg", "db -1a", "x y db 1", "foo bar", "1", "rax", "rax, rbx", "\"abc\"", ",", ", ,", ".text", "= 1", "x dx 1", "x equ 1", "[rax]",
];

/// What other assemblers know: instructions and directives that are not of this language.
pub const FOREIGN: &str = "movabs movq movl movw movb movsx movsxd movzx movsb movsq movups movaps movd xchg cmov cmove cmovne lea leaq leave enter pop popq pushq pushl pushw pushf pushfq popf popfq pusha pushad call callq jmp je jne jz jnz jl jle jg jge ja jae jb jbe jc jnc js jns jo jno jp jnp loop loope loopne add addq sub subq adc sbb mul imul div idiv inc incq dec decq neg not and or xor xorl xorq shl shr sal sar rol ror rcl rcr bt bts btr btc bsf bsr bswap popcnt lzcnt tzcnt cmp cmpq test testq sete setne setl setg cdq cqo cwd cbw cwde cdqe cld std clc stc cmc cli sti lahf sahf lods lodsb stosb stosq scasb cmpsb rep repe repne repz repnz lock nop nopw nopl hlt int int3 into iret iretq retn retf retq lret sysret sysexit sysenter sysretq cpuid rdtsc rdtscp ud2 pause fence mfence lfence sfence endbr64 endbr32 in out ins outs wait fld fst fstp fadd fnop emms xadd cmpxchg xlat xlatb prefetch notrack bnd section. segment .section .segment .text .data .bss .rodata text data bss code rodata .const .cstring sect public .globl .global globl .public export .export extern .extern externdef extrn import local .local weak .weak .private_extern .hidden common comm .comm .lcomm lcomm static .type .size .file .loc .ident .align .balign .p2align align alignb .cfi_startproc .cfi_endproc .cfi_def_cfa_offset .subsections_via_symbols .build_version .macosx_version_min .intel_syntax .att_syntax .code64 .code32 .byte .short .word .long .int .quad .octa .ascii .asciz .string .zero .space .skip .fill .org .equ .set .include .incbin .macro .endm .rept .endr .if .endif .else .end end org bits use16 use32 use64 cpu default float absolute struc endstruc istruc iend times equ incbin include resb resw resd resq rest reso dt do dy dz ddq rb rw rd rq du file label proc endp ends assume model .model .stack .code .386 .686 .x64 option title name page even dup offset %define %macro %endmacro %include %if %endif %assign #include #define #if #endif // /* */ -- // # @ ! $ % & * + - = == => -> .. ... ? \\ | || ~ ^ ` { } ( ) [ ] < > import: program begin module fn main() void return goto print echo exit quit eof EOF null NULL nil none true false yes no on off MOV Mov mOV PUSH Push RET Ret SYSCALL SysCall SECTION Section GLOBAL Global DB Db DW DD DQ";

fn endings() -> [&'static str; 4] {
    ["\n", "", "\r\n", " ; comment 5 db\n"]
}

fn a06(w: &mut W) {
    let th = w.thorough();
    let bad: Vec<&str> = MALFORMED.iter().chain(MALFORMED2).cloned().collect();
    // token sequences
    let toks = ["mov", "push", "ret", "syscall", "section", ".text", "global", "a", "b:", "u", "db", "rax", "eax", "ax", ",", "1", "300", "\"s\"", "+"];
    for n in 1..=if th { 5u32 } else { 4 } {
        let total = toks.len().pow(n);
        let step = if n > 4 { 19 * 19 } else { 38 };
        for lo in (0..total).step_by(step) {
            w.case("token sequences", || format!("lines of {n} tokens number {lo}.. over {toks:?}"), |w| {
                for x in lo..(lo + step).min(total) {
                    w.beat();
                    let mut seq = vec![];
                    let mut y = x;
                    for _ in 0..n {
                        seq.push(toks[y % toks.len()]);
                        y /= toks.len();
                    }
                    w.state(&seq);
                    let l = seq.join(" ");
                    match judge(&seq) {
                        Verdict::Open => {}
                        Verdict::Valid => {
                            w.note(|| l.clone());
                            w.transitions += 1;
                            w.executed(1);
                            let b = assemble(format!("ret\na:\n{l}\n").as_bytes()).map_err(|e| format!("{e}\n  line {l:?}"))?;
                            macho::read(&b)?;
                        }
                        Verdict::Refused => refused(w, &[&format!("ret\na:\n{l}\n")], None)?,
                        // no token is 7
                        Verdict::Invalid => refused(w, &[&format!("ret\na:\n\n; c\n\nret\n{l}\n")], Some(7))?,
                    }
                }
                Ok(())
            });
        }
    }
    // one edit, and in the thorough tier every pair of edits out of fewer characters, away from valid lines
    let all: Vec<char> = (b' '..=b'~').map(|c| c as char).chain(['\t']).collect();
    let few: Vec<char> = " ,:;\"+-0x1agr.".chars().collect();
    let edit = |l: &str, at: usize, kind: usize, c: char| -> Option<String> {
        let (a, b) = l.split_at(at);
        match kind {
            0 => Some(format!("{a}{c}{b}")),
            1 => (!b.is_empty() && !b.starts_with(c)).then(|| format!("{a}{c}{}", &b[1..])),
            _ => (!b.is_empty()).then(|| format!("{a}{}", &b[1..])),
        }
    };
    for l in SEEDS {
        for at in 0..=l.len() {
            for kind in 0..3 {
                w.case("edits of valid lines", || format!("{} at {at} of {l:?}", ["every character inserted", "the character replaced", "the character removed"][kind]), |w| {
                    for &c in if kind == 2 { &all[..1] } else { &all[..] } {
                        w.beat();
                        if let Some(m) = edit(l, at, kind, c) {
                            judged(w, &m)?;
                        }
                    }
                    Ok(())
                });
            }
        }
        if th {
            for at in 0..=l.len() {
                for to in at..=l.len() {
                    w.case("pairs of edits of valid lines", || format!("at {at} and {to} of {l:?}"), |w| {
                        for k2 in 0..3 {
                            for &c2 in if k2 == 2 { &few[..1] } else { &few[..] } {
                                let Some(m) = edit(l, to, k2, c2) else { continue };
                                for k1 in 0..3 {
                                    w.beat();
                                    for &c1 in if k1 == 2 { &few[..1] } else { &few[..] } {
                                        if let Some(m) = edit(&m, at, k1, c1) {
                                            judged(w, &m)?;
                                        }
                                    }
                                }
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    // lines of other languages
    let words: Vec<&str> = FOREIGN.split_whitespace().filter(|x| !x.ends_with(':')).collect();
    for part in words.chunks(8) {
        w.case("lines of other assemblers", || format!("{part:?}"), |w| {
            for x in part {
                w.beat();
                for rest in [
                    "", " rax", " eax", " 1", " 64", " 0x10", " a", " rax, rbx", " rax, 5", " eax, 5", " rax, a", " a, b", " .text", " .data", " rel", " on", " \"a.c\"", " 4, 0x90", " noprefix", " a, @function", " a 1", " a = 1", " 5 + 3", " rax, [rbx]", " rax, qword [rbx + 8]", " $5, %rax", " %rax", " 64 ; c", "; c", ",", ":a", " a:", " 1, 2, 3", " macos, 10, 15",
                ] {
                    let l = format!("{x}{rest}");
                    // some are comments, some a label's name
                    if l.ends_with(':') && !l.contains(' ') {
                        continue;
                    }
                    w.state(&l);
                    refused(w, &[&format!("ret\na:\n\n; c\n\nret\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n{l}\nret\n")], Some(23))?;
                }
                // between good lines, in the data section
                w.state(&(x, "data"));
                refused(w, &[&format!("section .data\nx db 1\n{x}\n{x} 1\ndb 2\n")], Some(3))?;
            }
            Ok(())
        });
    }
    // surplus words before, behind and inside valid lines
    for l in SEEDS {
        let gaps: Vec<usize> = (0..=l.len()).filter(|&i| i == 0 || i == l.len() || l.as_bytes()[i] == b' ').collect();
        for &at in &gaps {
            w.case("surplus words", || format!("at {at} of {l:?}"), |w| {
                let (a, b) = l.split_at(at);
                for s in SURPLUS {
                    w.beat();
                    for m in [format!("{a} {s} {b}"), format!("{a}\t{s}{b}"), format!("{a} {s}{b} ; c")] {
                        judged(w, m.trim_start())?;
                    }
                    if th {
                        for s2 in SURPLUS {
                            judged(w, &format!("{a} {s} {s2} {b}"))?;
                        }
                    }
                }
                Ok(())
            });
        }
    }
    // positions, sections, endings, followers
    let filler = ["ret", "", "push 40", "; c", "x: ; c", "global x", "mov rax, rbx"];
    let before = |n: usize, sect: usize| -> String {
        let mut s = String::new();
        for i in 1..n {
            if i == 1 && sect > 0 {
                s.push_str(["", "section .data", "section .bss"][sect]);
            } else if i % 7 == 4 && i > 7 || sect == 2 {
                s.push_str("; c");
            } else {
                s.push_str(filler[i % 7]);
            }
            s.push('\n');
        }
        s
    };
    for (bi, b) in bad.iter().enumerate() {
        for n in (1usize..=12).chain([31, 33, 99, 100, 101, 127, 129, 254, 255, 257, 258, 1000]) {
            // a number that the line itself holds proves nothing
            if gives_number(b, n) || [8, 16, 32, 64, 40].contains(&n) {
                continue;
            }
            w.case("malformed lines", || format!("{b:?} at line {n}"), |w| {
                for sect in 0..if n == 1 { 1 } else { 3 } {
                    for (ei, e) in endings().iter().enumerate() {
                        if n > 12 && (ei + sect + bi) % 4 != 0 {
                            continue;
                        }
                        let head = before(n, sect);
                        // the comment would close the open string
                        let follow: &[&str] = if e.is_empty() { &[""] } else { &["", "ret\n", "hoge hoge\n", "db 999\n", "section .bss\ndb 9\n"] };
                        for (fi, f) in follow.iter().enumerate() {
                            if n > 4 && (fi + ei + sect) % 3 != 0 {
                                continue;
                            }
                            w.state(&(b, n, sect, ei, fi));
                            refused(w, &[&format!("{head}{b}{e}{f}")], Some(n))?;
                        }
                        if ei == 2 && !e.is_empty() {
                            w.state(&(b, n, sect, "crlf"));
                            refused(w, &[&format!("{head}\t {b}  \n").replace('\n', "\r\n")], Some(n))?;
                        }
                    }
                }
                Ok(())
            });
        }
    }
    // behind every one, two and three lines of a kind
    let long = format!("db \"{}\"", "l".repeat(9000));
    let longc = format!("; {}", "c".repeat(20000));
    let kinds: Vec<&str> = vec![
        "ret", "syscall", "push rbx", "push 3", "mov rax, 6 + 1", "mov eax, x", "x:", "global x", "section .text", "section .data", "db 1, \"q;\", 3", "y db \"; no\"", "dq \"あ\"", "; あ", "; \"", ";\r", "", " ", "\t", "\r",
        " \t ; c", "ret ; \" c", "db \"\\\"", "db \"\"", "db 1 ; , 2", ";;", "; a\rb", &long, &longc,
    ];
    let depth = if th { 3u32 } else { 2 };
    for n in 1..=depth {
        for x in 0..kinds.len().pow(n) {
            w.case("behind lines", || format!("a malformed line behind {n} lines, number {x}"), |w| {
                let pick: Vec<&str> = (0..n).map(|i| kinds[x / kinds.len().pow(i) % kinds.len()]).collect();
                // a label twice is another matter
                for l in ["x:", "y db \"; no\""] {
                    if pick.iter().filter(|p| **p == l).count() > 1 {
                        return Ok(());
                    }
                }
                for e in ["\n", "\r\n"] {
                    for pad in [30usize, 31] {
                        w.state(&(&pick, e, pad));
                        let s = format!("{}{}{e}hoge", "\n".repeat(pad), pick.join(e));
                        refused(w, &[&s], Some(pad + n as usize + 1))?;
                    }
                }
                Ok(())
            });
        }
    }
    // every character that some editor or terminal takes for a line end, a blank or nothing
    {
        let mut odd: Vec<char> = (1u32..=0x24f).chain([0x34f, 0x61c, 0x115f, 0x1160, 0x1680, 0x17b4, 0x180e, 0x3000, 0x3001, 0x3164, 0xfeff, 0xfffc, 0xfffd, 0xffff, 0xe000, 0x10ffff, 0x1f600, 0xff1a, 0xff1b, 0xff0c]).chain(0x2000..=0x2070).chain(0x2400..=0x2426).filter_map(char::from_u32).collect();
        odd.retain(|c| *c != '\n');
        for part in odd.chunks(8) {
            w.case("odd characters", || format!("a malformed line behind comments and strings with {part:?}"), |w| {
                for &c in part {
                    w.state(&("odd", c));
                    let mut s = format!("; a{c}b\n;{c}\nret ;{c}{c}\n");
                    let mut n = 3;
                    if c != '"' && c != '\r' && c != ';' {
                        s += &format!("db \"a{c}b\", 1\nx db \"{c}\"\n");
                        n += 2;
                    }
                    s += &"\n".repeat(30);
                    n += 31;
                    refused(w, &[&format!("{s}hoge\nret\n")], Some(n))?;
                    // the same in the middle of the pieces
                    refused(w, &[&s, "db 256\n"], Some(n))?;
                }
                Ok(())
            });
        }
    }
    // characters that are no part of the language, and no blanks
    {
        let odd: Vec<char> = (0x1u32..0x20).filter(|c| !(9..=13).contains(c)).chain([0x7f]).chain(0xa1..=0x17f).chain([0x34f, 0x3bc, 0x430, 0x435, 0x61c, 0x660, 0x661, 0x664, 0x665, 0x6f5, 0x966, 0x96b, 0x115f, 0x1160, 0x17b4, 0x180e, 0x3001, 0x3002, 0x3042, 0x3164, 0xfeff, 0xfffc, 0xfffd, 0xffff, 0xe000, 0x10ffff, 0x1f600, 0x1d7d9, 0x1d7ec])
            .chain(0x200b..=0x200f).chain(0x2010..=0x2027).chain(0x202a..=0x202e).chain(0x2060..=0x2070).chain(0x2080..=0x2089).chain([0x2212, 0x2460, 0x2480]).chain(0xff01..=0xff5e).filter_map(char::from_u32).collect();
        let plain = ["ret", "syscall", "push rax", "push 5", "mov rax, rbx", "mov rcx, 5", "mov eax, 0x10 + 2", "mov ax, 7", "section .text", "db 5", "db 1, 0x2", "dq 5 ", "", "db \"a\", 1"];
        for l in plain {
            for part in odd.chunks(16) {
                w.case("odd characters in lines", || format!("{part:?} at every place of {l:?}"), |w| {
                    for &c in part {
                        for at in 0..=l.len() {
                            // the inside of a string
                            if l.starts_with("db \"") && (at == 4 || at == 5) {
                                continue;
                            }
                            w.state(&("odd in", l, c, at));
                            let t = format!("{}{c}{}", &l[..at], &l[at..]);
                            refused(w, &[&format!("{t}\n")], None)?;
                            if at == l.len() && !l.contains("mov r") {
                                refused(w, &[&format!("{t} hoge ; c\n")], None)?;
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    // every place of long sources in which every kind of line stands behind every other
    {
        let mixed = ["ret", "push 40", "mov rax, rbx", "mov eax, 6 + 1", "mov rdi, x", "L:", "global x", "global L", "section .text", "section .data", "section .bss", "db 1, \"q;\", 3", "L dq \"a\"", "; c", "", "\t; \"", "\r"];
        for turn in 0..2usize {
            let mut lines: Vec<String> = vec![];
            let (mut bss, mut k) = (false, 0);
            for x in 0..mixed.len() {
                for y in 0..mixed.len() {
                    for z in if turn == 0 { [x, y] } else { [y, (x + y) % mixed.len()] } {
                        let l = mixed[z];
                        if l.starts_with("section") {
                            bss = l == "section .bss";
                        } else if bss && !(l.is_empty() || l == "L:" || l.starts_with("global") || l.trim().is_empty() || l.trim().starts_with(';')) {
                            lines.push(["section .text", "section .data"][k % 2].into());
                            bss = false;
                        }
                        k += 1;
                        lines.push(l.replace('L', &format!("l{k}")));
                    }
                }
            }
            lines.extend(lines.clone().into_iter().map(|l| l.replacen('l', "k", 1).replacen("gkobal", "global", 1)).filter(|l| !l.contains("syscakk")));
            for lo in (0..lines.len()).step_by(8) {
                w.case("in long sources", || format!("a malformed line in place of each of 8 lines from {lo} of {}, arrangement {turn}", lines.len()), |w| {
                    let mut head: String = lines[..lo].iter().map(|l| format!("{l}\n")).collect();
                    for n in lo..(lo + 8).min(lines.len()) {
                        let b = ["hoge", "mov rax, eax", "db 256", "section .foo"][n % 4];
                        if !gives_number(b, n + 1) {
                            w.state(&(turn, n));
                            refused(w, &[&format!("{head}{b}\nret\n")], Some(n + 1))?;
                        }
                        head.push_str(&lines[n]);
                        head.push('\n');
                    }
                    Ok(())
                });
            }
        }
    }
    for n in [32767usize, 32768, 65535, 65536, 65537, 70000, 131072, 131073] {
        for (i, l) in ["ret\n", "\n", "; a comment\n", "mov rax, rbx\r\n"].iter().enumerate() {
            for b in ["hoge", "db 256", "mov rax, eax", "section", "db \"abc"] {
                w.case("far lines", || format!("{b:?} at line {n} behind lines {l:?}"), |w| {
                    w.state(&(n, i, b));
                    refused(w, &[&format!("{}{b}\n", l.repeat(n - 1))], Some(n))
                });
            }
        }
    }
    // many malformed lines
    for n in (1usize..=520).chain([767, 768, 1000, 1023, 1024, 1025, 4096, 8192, 32768, 65535, 65536, 65537]) {
        w.case("many malformed lines", || format!("{n} malformed lines, with and without others before, between and behind"), |w| {
            for (i, b) in ["hoge\n", "push rax, rbx\n", "db 256\r\n", "mov rax\nret\n"].iter().enumerate() {
                if n > 520 && i > 0 {
                    continue;
                }
                w.state(&(n, i));
                refused(w, &[&b.repeat(n)], Some(1))?;
                if n < 520 && i == n % 4 {
                    refused(w, &[&format!("ret\n\n{}ret\n", b.repeat(n))], Some(3))?;
                    refused(w, &["ret\n", &b.repeat(n), "ret\n"], Some(2))?;
                }
            }
            Ok(())
        });
    }
    // long malformed lines, across the reader's buffer
    for n in [100usize, 8180, 8190, 8191, 8192, 8193, 16384, 70000] {
        for b in ["mov rax, rbx", "db 1", "push 1", "syscall"] {
            w.case("long lines", || format!("{b:?}, {n} blanks, then a surplus word"), |w| {
                w.state(&(n, b));
                let tail = if b.starts_with("db") { ", foo" } else { " foo" };
                refused(w, &[&format!("ret\nret\n{b}{}{tail}\nret\n", " ".repeat(n))], Some(3))?;
                refused(w, &[&format!("ret\n;{}\n{b}{tail}", "x".repeat(n))], Some(3))
            });
        }
    }
    // truncations of valid lines
    for (l, ok) in [
        ("mov rax, 1 + 2", vec![10usize, 14]),
        ("mov r10d, 77", vec![11, 12]),
        ("mov rdi, rsi", vec![12]),
        ("section .data", vec![13]),
        ("x db 1, \"abc\", 9", vec![]),
        ("push rax", vec![8]),
        ("syscall", vec![7]),
    ] {
        for n in 1..=l.len() {
            let t = &l[..n];
            let open = match l {
                "x db 1, \"abc\", 9" => !(1..=4).contains(&n) && !(9..=12).contains(&n),
                "mov rdi, rsi" => n >= 10 && n < 12, // an undefined symbol: refused, below
                "mov rax, 1 + 2" => n == 11,         // a trailing blank
                _ => false,
            };
            w.case("truncations", || format!("{t:?}"), |w| {
                w.state(t);
                if l == "mov rdi, rsi" && (n == 10 || n == 11) {
                    return refused(w, &[&format!("ret\n\nret\n\n{t}\n")], None);
                }
                if open || ok.contains(&n) {
                    return Ok(());
                }
                refused(w, &[&format!("ret\n\nret\n\n{t}\n")], Some(5))
            });
        }
    }
    // every small program, then a malformed line
    let alpha = a01_alphabet();
    let pick = ["hoge", "mov rax, eax", "db 256", "x db", "section .foo", "push", "global", "mov ax, 65536", "ret ret", "db \"abc"];
    programs(w, "malformed line after a program", &alpha, if th { 5 } else { 4 }, 2, &|w, t, _, seq| {
        w.beat();
        let n = seq.len() + 1;
        let b = pick[(seq.iter().sum::<usize>() + n) % pick.len()];
        refused(w, &[&format!("{t}{b}\nret\n")], Some(n))
    });
    // undefined labels, bytes in the zero-fill section
    let small = vec![
        section(TEXT),
        section(DATA),
        section(BSS),
        label("a"),
        global("b"),
        movsym(64, 7, "a"),
        movsym(32, 3, "b"),
        movsym(64, 8, "ab"),
        db(Some("x"), &[1]),
        push_imm(5),
        line("dq \"\", 1", Sem::Data(None, vec![1, 0, 0, 0, 0, 0, 0, 0])),
    ];
    let depth = 4u32;
    for n in 1..=depth {
        let total = small.len().pow(n);
        for lo in (0..total).step_by(small.len()) {
            w.case("undefined labels and filled bss", || format!("programs of {n} lines number {lo}.."), |w| {
                for x in lo..lo + small.len() {
                    w.beat();
                    let mut y = x;
                    let mut ls = vec![];
                    for _ in 0..n {
                        ls.push(small[y % small.len()].clone());
                        y /= small.len();
                    }
                    let m = Model::of(&ls);
                    w.state(&m);
                    let dup = ["a", "x"].iter().any(|l| m.defines(l) > 1);
                    let t = text_of(&ls);
                    if m.valid() {
                        if !dup {
                            w.executed(1);
                            w.transitions += 1;
                            assemble(t.as_bytes())?;
                        }
                    } else {
                        refused(w, &[&t], None)?;
                    }
                }
                Ok(())
            });
        }
    }
}

// ---------------------------------------------------------------- A09
fn fresh(t: &[&str]) -> Result<Vec<u8>, String> {
    assemble(t.concat().as_bytes())
}
/// Feeds the lines cut at `cuts` (bit i: behind line i), emitting behind piece `j` when
/// `emit` has that bit, and compares every emission with a fresh assembly of the text so far.
fn pieces(w: &mut W, lines: &[String], cuts: usize, emit: usize, want: &dyn Fn(usize) -> Option<Vec<u8>>) -> Result<(), String> {
    let mut a = Assembler::new();
    let mut start = 0;
    let mut piece = 0;
    let what = || format!("lines {lines:?}, cuts behind {cuts:#b}, emissions {emit:#b}");
    w.note(what);
    for i in 0..lines.len() {
        if cuts >> i & 1 == 0 && i + 1 < lines.len() {
            continue;
        }
        let t = lines[start..=i].concat();
        start = i + 1;
        w.transitions += 1;
        sut(|| {
            a.read_from(&mut t.as_bytes());
        })
        .map_err(|m| format!("feeding panicked: {m}\n  {}", what()))?;
        let last = i + 1 == lines.len();
        if last || emit >> piece & 1 == 1 {
            if let Some(b) = want(i + 1) {
                for again in 0..2 {
                    w.transitions += 1;
                    let out = sut(|| {
                        let mut o = vec![];
                        a.write_into(&mut o);
                        o
                    })
                    .map_err(|m| format!("emitting panicked: {m}\n  {}", what()))?;
                    w.outcome(&out);
                    if out != b {
                        return Err(format!("emission {again} behind line {} differs from the object of the text so far\n  {}", i + 1, what()));
                    }
                }
            }
        }
        piece += 1;
    }
    w.executed(1);
    Ok(())
}

/// Calls `f`, in a thread of its own if so wanted.
fn anywhere<T>(own: bool, f: impl FnOnce() -> T) -> T {
    /// What is inside is only used by one thread at a time.
    struct Only<X>(X);
    unsafe impl<X> Send for Only<X> {}
    impl<X> Only<X> {
        fn take(self) -> X {
            self.0
        }
    }
    if !own {
        return f();
    }
    let f = Only(f);
    std::thread::scope(|s| match s.spawn(move || Only((f.take())())).join() {
        Ok(t) => t.take(),
        Err(e) => std::panic::resume_unwind(e),
    })
}

/// A source and an output at each of whose reads and writes something else happens.
struct Inside<'a> {
    data: &'a [u8],
    out: Vec<u8>,
    chunk: usize,
    step: &'a mut dyn FnMut(),
}
impl std::io::Read for Inside<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        (self.step)();
        let n = buf.len().min(self.chunk).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}
impl std::io::Write for Inside<'_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        (self.step)();
        let n = buf.len().min(self.chunk);
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn a09(w: &mut W) {
    let th = w.thorough();
    let alpha = a01_alphabet();
    let depth = if th { 5 } else { 4 };
    programs(w, "programs, all cuts and emissions", &alpha, depth, 2, &|w, _, _, seq| {
        let n = seq.len();
        if n < 2 {
            return Ok(());
        }
        let lines: Vec<String> = seq.iter().map(|&i| format!("{}\n", alpha[i].text)).collect();
        let mut want: Vec<Option<Vec<u8>>> = vec![];
        for k in 0..=n {
            let m = Model::of(seq[..k].iter().map(|&i| &alpha[i]));
            want.push(if m.valid() { Some(assemble(lines[..k].concat().as_bytes())?) } else { None });
        }
        for cuts in 0..1usize << (n - 1) {
            let k = cuts.count_ones();
            for emit in 0..1usize << k {
                w.state(&(seq, cuts, emit));
                pieces(w, &lines, cuts, emit, &|i| want[i].clone())?;
            }
        }
        Ok(())
    });
    // longer programs
    let long = [
        "a:\nmov rdi, b\nsection .data\nb db 1, 2\nglobal b\nsection .text\nmov rsi, a\nglobal a\nret\n",
        "section .data\nx db \"s ; t\"\nsection .bss\nz:\nsection .data\ny dq 7\nglobal z\nglobal y\nmov rax, z\n",
        "global e\nglobal s\ns:\npush 1\nmov r8d, e\nsection .data\ndw 1\ne:\nmov rcx, s\n",
        "; c\n\nsection .text\na1:\nret\na2:\nglobal a1\nmov rax, a1\nmov rbx, a2\n",
        "section .bss\nq:\nsection .text\nsyscall\np:\nsection .data\nr dd 5\nmov rdx, q\n",
        "x db 1\nsection .data\nglobal w\nsection .text\nw:\nsection .data\nv db 2\nglobal x\nmov rax, w\n",
    ];
    for src in long {
        let lines: Vec<String> = src.split_inclusive('\n').map(|s| s.to_string()).collect();
        let n = lines.len();
        for cuts in 0..1usize << (n - 1) {
            w.case("long programs", || format!("{} cut behind {cuts:#b}, every set of emissions", show(src)), |w| {
                // a prefix whose labels are not all defined yet cannot be emitted
                let defined = |t: &str| {
                    t.lines().filter_map(|l| l.strip_prefix("mov ")).all(|l| {
                        let o = l.split(", ").nth(1).unwrap();
                        t.lines().any(|d| d == format!("{o}:") || d.starts_with(&format!("{o} d")))
                    })
                };
                let mut want: Vec<Option<Vec<u8>>> = vec![];
                for k in 0..=n {
                    let t = lines[..k].concat();
                    want.push(if defined(&t) { Some(assemble(t.as_bytes())?) } else { None });
                }
                for emit in 0..1usize << cuts.count_ones() {
                    w.state(&(src, cuts, emit));
                    pieces(w, &lines, cuts, emit, &|i| want[i].clone())?;
                }
                Ok(())
            });
        }
    }
    // long programs in which all kinds of lines follow one another
    {
        // (no operand ahead of its label: every beginning can be emitted)
        let two: Vec<String> = super::asm::mixed(2, false).iter().map(|l| format!("{}\n", l.text)).collect();
        let n = two.len();
        let check = |w: &mut W, lines: &[String], cuts: &[usize], emit: bool, want: &dyn Fn(usize) -> Result<Vec<u8>, String>| -> Result<(), String> {
            let what = || format!("{} lines cut behind lines {cuts:?}, emissions between: {emit}", lines.len());
            w.note(what);
            w.transitions += 1;
            let mut a = Assembler::new();
            let mut at = 0;
            for &c in cuts.iter().chain([&lines.len()]) {
                let t = lines[at..c].concat();
                at = c;
                let last = c == lines.len();
                let got = sut(|| {
                    a.read_from(&mut t.as_bytes());
                    (emit || last).then(|| {
                        let mut o = vec![];
                        a.write_into(&mut o);
                        o
                    })
                })
                .map_err(|m| format!("panicked: {m}\n  {}", what()))?;
                if let Some(o) = got {
                    w.outcome(&o);
                    if o != want(c)? {
                        return Err(format!("the object emitted behind line {c} differs from that of the text so far\n  {}", what()));
                    }
                }
            }
            w.executed(1);
            Ok(())
        };
        let wants: Vec<Vec<u8>> = (0..=n).map(|k| assemble(two[..k].concat().as_bytes()).unwrap_or_default()).collect();
        for i in 0..=n {
            w.case("mixed programs", || format!("{n} lines cut behind line {i} and behind every later one"), |w| {
                for j in i..=n {
                    w.state(&(i, j));
                    for emit in [false, true] {
                        check(w, &two, &[i, j], emit, &|k| Ok(wants[k].clone()))?;
                    }
                }
                Ok(())
            });
        }
        let three: Vec<String> = super::asm::mixed(3, false).iter().map(|l| format!("{}\n", l.text)).collect();
        let m = three.len();
        for size in (1..=64usize).chain([100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097]) {
            w.case("mixed programs", || format!("{m} lines in pieces of {size}"), |w| {
                w.state(&(size, m));
                let cuts: Vec<usize> = (size..m).step_by(size).collect();
                check(w, &three, &cuts, false, &|k| assemble(three[..k].concat().as_bytes()))?;
                if size > 20 {
                    check(w, &three, &cuts, true, &|k| assemble(three[..k].concat().as_bytes()))?;
                }
                Ok(())
            });
        }
        let step = if th { 1 } else { 5 };
        for lo in (0..=m).step_by(16 * step) {
            w.case("mixed programs", || format!("{m} lines cut behind every {step}. line from {lo}"), |w| {
                let all = assemble(three.concat().as_bytes())?;
                for c in (lo..lo + 16 * step).step_by(step).filter(|&c| c <= m) {
                    w.state(&(c, m));
                    check(w, &three, &[c], c % 2 == 0, &|k| if k == m { Ok(all.clone()) } else { assemble(three[..k].concat().as_bytes()) })?;
                }
                Ok(())
            });
        }
    }
    // any number of pieces between two emissions
    {
        let lines: Vec<String> = super::asm::mixed(2, false).iter().map(|l| format!("{}\n", l.text)).collect();
        let start = lines.iter().position(|l| l.starts_with("ret")).unwrap_or(0) + 1;
        for n in (1usize..=if th { 1100 } else { 530 }).chain([1023, 1024, 1025, 4095, 4096, 32767, 32768, 65535, 65536, 65537]) {
            w.case("pieces between emissions", || format!("an emission, {n} pieces, an emission"), |w| {
                w.state(&n);
                for kind in 0..4 {
                    // no text, one line again and again, a line that changes the object and lines that do not, a program line by line
                    let piece = |i: usize| -> String {
                        match kind {
                            0 => "".into(),
                            1 => "ret\n".into(),
                            2 => if i == n / 2 { "global a\n".into() } else { ["; c\n", "\n", "", "global u\n"][i % 4].into() },
                            _ => lines.get(start + i).cloned().unwrap_or_default(),
                        }
                    };
                    if n > 2000 && kind == 3 {
                        continue;
                    }
                    let head = if kind == 3 { lines[..start].concat() } else { "a:\nb:\nret\n".to_string() };
                    let (h, end) = sut(|| {
                        let mut a = Assembler::new();
                        a.read_from(&mut head.as_bytes());
                        let mut h = vec![];
                        a.write_into(&mut h);
                        for i in 0..n {
                            a.read_from(&mut piece(i).as_bytes());
                        }
                        let mut o = vec![];
                        a.write_into(&mut o);
                        (h, o)
                    })
                    .map_err(|m| format!("kind {kind}: panicked: {m}"))?;
                    w.executed(1);
                    w.transitions += n as u64 + 2;
                    if kind != 3 && h != assemble(head.as_bytes())? {
                        return Err(format!("kind {kind}: the first emission is not the object of {head:?}"));
                    }
                    let all: String = (0..n).map(|i| piece(i)).collect();
                    let want = assemble(format!("{head}{all}").as_bytes());
                    if kind == 3 && want.is_err() {
                        continue;
                    }
                    if end != want? {
                        return Err(format!("kind {kind}: the emission behind {n} pieces is not that of the text so far"));
                    }
                }
                Ok(())
            });
        }
        for n in (1usize..=300).chain([1024, 65535, 65536, 65537]) {
            w.case("many emissions", || format!("{n} emissions, a piece, an emission"), |w| {
                w.state(&n);
                w.executed(1);
                w.transitions += n as u64 + 3;
                let (h, l, end) = sut(|| {
                    let mut a = Assembler::new();
                    a.read_from(&mut &b"mov rax, a\na:\n"[..]);
                    let mut h = vec![];
                    let mut l = vec![];
                    a.write_into(&mut h);
                    for _ in 1..n {
                        l.clear();
                        a.write_into(&mut l);
                    }
                    a.read_from(&mut &b"ret\nglobal a\n"[..]);
                    let mut o = vec![];
                    a.write_into(&mut o);
                    (h, l, o)
                })?;
                if h != assemble(b"mov rax, a\na:\n")? || (n > 1 && l != h) || end != assemble(b"mov rax, a\na:\nret\nglobal a\n")? {
                    return Err(format!("one of {n} emissions, or the one behind a further piece, differs"));
                }
                Ok(())
            });
        }
    }
    // empty pieces change nothing
    w.case("empty pieces", || "empty pieces and pieces of blank lines everywhere".into(), |w| {
        for e in ["", "\n", ";c\n", "\r\n\t\n"] {
            for src in long {
                let lines: Vec<&str> = src.split_inclusive('\n').collect();
                let want = fresh(&lines)?;
                let got = sut(|| {
                    let mut a = Assembler::new();
                    for l in &lines {
                        a.read_from(&mut e.as_bytes()).read_from(&mut l.as_bytes()).read_from(&mut e.as_bytes());
                    }
                    let mut o = vec![];
                    a.write_into(&mut o);
                    o
                })?;
                w.executed(1);
                w.transitions += 1;
                if got != want {
                    return Err(format!("with pieces {e:?} around every line the object differs\n  {}", show(src)));
                }
            }
        }
        Ok(())
    });
    // two assemblers
    for (i, x) in long.iter().enumerate() {
        for (j, y) in long.iter().enumerate() {
            w.case("two assemblers", || format!("programs {i} and {j} in 4 pieces each, every interleaving"), |w| {
                let cut = |s: &str| -> Vec<String> {
                    let l: Vec<&str> = s.split_inclusive('\n').collect();
                    let q = (l.len() + 3) / 4;
                    l.chunks(q).map(|c| c.concat()).collect()
                };
                let (px, py) = (cut(x), cut(y));
                let (wx, wy) = (assemble(x.as_bytes())?, assemble(y.as_bytes())?);
                let n = px.len() + py.len();
                for order in 0..1usize << n {
                    if order.count_ones() as usize != px.len() {
                        continue;
                    }
                    w.state(&(i, j, order));
                    w.executed(1);
                    w.transitions += n as u64 + 2;
                    let (ox, oy) = sut(|| {
                        let mut a = Assembler::new();
                        let mut b = Assembler::new();
                        let (mut ia, mut ib) = (0, 0);
                        for k in 0..n {
                            if order >> k & 1 == 1 {
                                a.read_from(&mut px[ia].as_bytes());
                                ia += 1;
                            } else {
                                b.read_from(&mut py[ib].as_bytes());
                                ib += 1;
                            }
                        }
                        let (mut oa, mut ob) = (vec![], vec![]);
                        a.write_into(&mut oa);
                        b.write_into(&mut ob);
                        (oa, ob)
                    })?;
                    if ox != wx || oy != wy {
                        return Err(format!("interleaving {order:#b} changes an object"));
                    }
                }
                Ok(())
            });
        }
    }
    // the same in two threads
    super::turns::at_the_same_time(
        w,
        &[
            (long[0], long[1]),
            ("a:\nmov rax, a\nsection .data\nb db 1\nglobal b\n", "global c\nsection .data\nd db \"xyz\"\nsection .bss\nc:\nsection .text\nmov ecx, c\nmov rdi, d\n"),
            ("ret\n", "section .data\nx db 1\nmov rax, x\n"),
        ],
        &|s| assemble(s.as_bytes()),
    );
    // one assembler in several threads, one after the other
    let short = "a:\nmov rax, a\nsection .data\nb db 1\nglobal b\nsection .bss\nc:\nsection .data\nglobal c\ndb 2\nmov rdi, c\n";
    for (i, x) in long.iter().chain([&short]).enumerate() {
        let lines: Vec<&str> = x.split_inclusive('\n').collect();
        for n in 2..=lines.len().min(9) {
            w.case("several threads", || format!("program {i} in {n} pieces and two emissions, each in a thread of its own or not"), |w| {
                let ps: Vec<String> = lines.chunks((lines.len() + n - 1) / n).map(|c| c.concat()).collect();
                let want = assemble(x.as_bytes())?;
                for order in 0..1usize << (ps.len() + 2) {
                    w.state(&("threads", i, n, order));
                    w.executed(1);
                    w.transitions += ps.len() as u64 + 2;
                    let (one, two) = sut(|| {
                        let mut a = anywhere(order & 1 == 1, Assembler::new);
                        for (k, p) in ps.iter().enumerate() {
                            anywhere(order >> k & 1 == 1, || {
                                a.read_from(&mut p.as_bytes());
                            });
                        }
                        let mut o = vec![];
                        anywhere(order >> ps.len() & 1 == 1, || a.write_into(&mut o));
                        let mut q = vec![];
                        anywhere(order >> (ps.len() + 1) & 1 == 1, || a.write_into(&mut q));
                        (o, q)
                    })?;
                    if one != want || two != want {
                        return Err(format!("pieces and emissions in threads of their own by {order:#b}: an object differs\n  {}", show(x)));
                    }
                }
                Ok(())
            });
        }
    }
    for n in 2..=8usize {
        for order in 0..1usize << n {
            w.case("line numbers in several threads", || format!("{n} pieces, those of {order:#b} in threads of their own"), |w| {
                let ps: Vec<String> = (0..n).map(|i| if i + 1 == n { "\nhoge\nret\n".into() } else { format!("{}ret\n", "\n".repeat(i * 3)) }).collect();
                let want = ps[..n - 1].concat().matches('\n').count() + 2;
                w.state(&("thread lines", n, order));
                w.executed(1);
                w.transitions += n as u64;
                w.refused += 1;
                let e = w.forked(|| {
                    let mut a = Assembler::new();
                    for (k, p) in ps.iter().enumerate() {
                        anywhere(order >> k & 1 == 1, || {
                            a.read_from(&mut p.as_bytes());
                        });
                    }
                    vec![]
                });
                let m = message(&e);
                match &e.end {
                    End::Returned(_) | End::Exited(0) | End::Killed(_) => Err(format!("a malformed line {want}, pieces in threads by {order:#b}: ended with {:?}", e.end)),
                    _ if !gives_number(&m, want) => Err(format!("a malformed line {want}, pieces in threads by {order:#b}: {:?} does not give it", clip(&m, 200))),
                    _ => Ok(()),
                }
            });
        }
    }
    // assemblers that work inside of the reads and writes of another
    for (i, x) in long.iter().chain([&short]).enumerate() {
        for (j, y) in [short, "global a\n; c\nsection .bss\na:\n", "b db \"abc\"\nmov eax, b\n", ""].iter().enumerate() {
            for chunk in [1usize, 7, 64, 100_000] {
                w.case("one inside of another", || format!("program {i} read and emitted in chunks of {chunk}, program {j} at each of them"), |w| {
                    let (want, inner) = (assemble(x.as_bytes())?, assemble(y.as_bytes())?);
                    for mode in 0..4usize {
                        w.state(&("inside", i, j, chunk, mode));
                        w.executed(1);
                        let mut steps = 0;
                        let got = sut(|| {
                            let mut one = Assembler::new();
                            let mut step = |mode: usize| {
                                steps += 1;
                                if mode < 2 {
                                    let mut b = Assembler::new();
                                    b.read_from(&mut y.as_bytes());
                                    let mut o = vec![];
                                    if mode == 0 {
                                        b.write_into(&mut o);
                                        assert!(o == inner, "the inner object differs");
                                    }
                                } else if mode == 2 {
                                    one.write_into(&mut vec![]);
                                } else {
                                    one.read_from(&mut &b"ret\nsection .data\ndb 1\nsection .bss\n"[..]).read_from(&mut &b"section .text\n"[..]);
                                }
                            };
                            let mut inside = Inside { data: x.as_bytes(), out: vec![], chunk, step: &mut || step(mode) };
                            let mut a = Assembler::new();
                            a.read_from(&mut inside);
                            a.write_into(&mut inside);
                            inside.out
                        })?;
                        w.transitions += steps;
                        if got != want {
                            return Err(format!("with another assembler at work in reads and writes (kind {mode}) the object differs\n  {}", show(x)));
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    // many lines
    for n in [255usize, 256, 257, 1000, 8192, 65535, 65536, 70000] {
        w.case("many lines", || format!("{n} lines cut in two and three"), |w| {
            let mut t = String::from("mov rax, end\nglobal end\n");
            for i in 0..n {
                t.push_str(["push 1\n", "section .data\n", "dw 3\n", "section .text\n", "\n"][i % 5]);
            }
            t.push_str("end:\nmov rax, end\n");
            let lines: Vec<&str> = t.split_inclusive('\n').collect();
            let want = assemble(t.as_bytes())?;
            for c in [1, 2, n / 3, n / 2, n, n + 1, n + 2, n + 3] {
                for d in [c, (c + n) / 2, n + 3] {
                    if d < c {
                        continue;
                    }
                    w.beat();
                    w.state(&(n, c, d));
                    w.executed(1);
                    w.transitions += 1;
                    let got = sut(|| {
                        let mut a = Assembler::new();
                        for p in [&lines[..c], &lines[c..d], &lines[d..]] {
                            a.read_from(&mut p.concat().as_bytes());
                        }
                        let mut o = vec![];
                        a.write_into(&mut o);
                        o
                    })?;
                    if got != want {
                        return Err(format!("cut behind lines {c} and {d} the object differs"));
                    }
                }
            }
            Ok(())
        });
    }
    // line numbers across pieces
    for n in 2..=12usize {
        for cuts in 0..1usize << (n - 1) {
            // all cut sets up to 7 lines, then those with at most two cuts
            if n > 7 && cuts.count_ones() > 2 {
                continue;
            }
            w.case("line numbers", || format!("malformed line {n}, cuts behind {cuts:#b}"), |w| {
                let mut ps = vec![String::new()];
                for i in 1..=n {
                    let l = ps.last_mut().unwrap();
                    l.push_str(if i == n { "hoge\n" } else { ["ret\n", "\n", "a: ; c\n", "section .text\r\n"][i % 4] });
                    if i == 2 {
                        *l = l.replace("a:", "b:");
                    }
                    if cuts >> (i - 1) & 1 == 1 {
                        ps.push(String::new());
                    }
                }
                let ps: Vec<&str> = ps.iter().map(|s| s.as_str()).collect();
                w.state(&(n, cuts));
                refused(w, &ps, Some(n))
            });
        }
    }
    for n in [100usize, 254, 255, 256, 257, 258, 1000, 65535, 65536, 65537, 100000] {
        for c in [1, n / 2, n - 2, n - 1] {
            w.case("line numbers far", || format!("malformed line {n}, cut behind {c}"), |w| {
                w.state(&(n, c));
                refused(w, &[&"ret\n".repeat(c), &format!("{}hoge\n", "push 1\n".repeat(n - 1 - c))], Some(n))
            });
        }
    }
    // line numbers of two assemblers fed in turns, and of one behind others that are done
    let piece = ["ret\n", "a:\n\n", "push 1\n; c\npush 2\n", ""];
    for n in 1..=if th { 7usize } else { 6 } {
        for order in 0..1usize << n {
            for last in 0..2usize {
                w.case("line numbers of two", || format!("two assemblers fed {n} pieces in turns {order:#b}, then a malformed line for number {last}"), |w| {
                    for kind in 0..4usize {
                        // the pieces' lines, then the malformed line's number in its own assembler
                        let turns: Vec<(usize, String)> = (0..n).map(|i| (order >> i & 1, piece[(i + kind) % 4].replace('a', &format!("l{i}")))).collect();
                        let at = |who: usize| 1 + turns.iter().filter(|t| t.0 == who).map(|t| t.1.matches('\n').count()).sum::<usize>();
                        // pad so that the two counts and their sum are different numbers
                        let pad = [0usize, 20][(last + kind) % 2];
                        let want = at(last) + pad;
                        w.state(&(&turns, last, pad));
                        w.note(|| format!("turns {turns:?}, {pad} empty lines and a malformed one for {last}"));
                        w.transitions += n as u64 + 1;
                        w.executed(1);
                        w.refused += 1;
                        let e = w.forked(|| {
                            let mut two = [Assembler::new(), Assembler::new()];
                            for (who, p) in &turns {
                                two[*who].read_from(&mut p.as_bytes());
                                if kind == 3 {
                                    two[*who].write_into(&mut vec![]);
                                }
                            }
                            two[last].read_from(&mut format!("{}hoge\n", "\n".repeat(pad)).as_bytes());
                            vec![]
                        });
                        let m = message(&e);
                        match &e.end {
                            End::Returned(_) => return Err(format!("turns {turns:?}: the malformed line for {last} was accepted")),
                            End::Exited(0) | End::Killed(_) => return Err(format!("turns {turns:?}: the malformed line for {last} ends the run with {:?}", e.end)),
                            _ => {}
                        }
                        if !gives_number(&m, want) {
                            return Err(format!("turns {turns:?}, {pad} empty lines, then a malformed line for assembler {last}: {:?} does not give line {want}", clip(&m, 300)));
                        }
                    }
                    Ok(())
                });
            }
        }
    }
}
