/// UAX #14 (Unicode 10) written out rule by rule, over line break classes (ICU numbering).
/// Returns for every boundary between two characters None, Some(false) (break) or Some(true).
pub fn uax14(cls: &[u8]) -> Vec<Option<bool>> {
    const AL: u8 = 2; const B2: u8 = 3; const BA: u8 = 4; const BB: u8 = 5; const BK: u8 = 6;
    const CB: u8 = 7; const CL: u8 = 8; const CM: u8 = 9; const CR: u8 = 10; const EX: u8 = 11;
    const GL: u8 = 12; const HY: u8 = 13; const ID: u8 = 14; const IN: u8 = 15; const IS: u8 = 16;
    const LF: u8 = 17; const NS: u8 = 18; const NU: u8 = 19; const OP: u8 = 20; const PO: u8 = 21;
    const PR: u8 = 22; const QU: u8 = 23; const SP: u8 = 26; const SY: u8 = 27; const ZW: u8 = 28;
    const NL: u8 = 29; const WJ: u8 = 30; const H2: u8 = 31; const H3: u8 = 32; const JL: u8 = 33;
    const JT: u8 = 34; const JV: u8 = 35; const CP: u8 = 36; const HL: u8 = 38; const RI: u8 = 39;
    const EB: u8 = 40; const EM: u8 = 41; const ZWJ: u8 = 42;
    // LB1
    let c: Vec<u8> = cls.iter().map(|x| match *x { 0 | 1 | 24 | 25 => AL, 37 => NS, y => y }).collect();
    // LB9, LB10: base class of every character, and whether it is attached to the one before
    let mut base = c.clone();
    let mut att = vec![false; c.len()];
    for i in 0..c.len() {
        if c[i] == CM || c[i] == ZWJ {
            if i > 0 && ![BK, CR, LF, NL, SP, ZW].contains(&c[i - 1]) { base[i] = base[i - 1]; att[i] = true; } else { base[i] = AL; }
        }
    }
    let mut out = Vec::new();
    for i in 1..c.len() {
        let (a, b) = (base[i - 1], base[i]);
        let (ra, rb) = (c[i - 1], c[i]);
        // before any spaces (class of the last non-space), and whether there were spaces
        let mut k = i - 1;
        while base[k] == SP && k > 0 { k -= 1; }
        let pre = base[k];
        let is = |x: u8, l: &[u8]| l.contains(&x);
        let x = None; let br = Some(false);
        let r = if ra == BK { Some(true) }
        else if ra == CR && rb == LF { x }
        else if is(ra, &[CR, LF, NL]) { Some(true) }
        else if is(rb, &[BK, CR, LF, NL, SP, ZW]) { x }
        else if pre == ZW { br }
        else if ra == ZWJ && is(rb, &[ID, EB, EM]) { x }
        else if att[i] { x }
        else if b == WJ || a == WJ { x }
        else if a == GL { x }
        else if b == GL && !is(a, &[SP, BA, HY]) { x }
        else if is(b, &[CL, CP, EX, IS, SY]) { x }
        else if pre == OP { x }
        else if pre == QU && b == OP { x }
        else if is(pre, &[CL, CP]) && b == NS { x }
        else if pre == B2 && b == B2 { x }
        else if a == SP { br }
        else if b == QU || a == QU { x }
        else if a == CB || b == CB { br }
        else if is(b, &[BA, HY, NS]) || a == BB { x }
        else if is(a, &[HY, BA]) && {
            // the character before the (possibly marked) hyphen
            let mut j = i - 1;
            while att[j] { j -= 1; }
            j > 0 && base[j - 1] == HL
        } { x }
        else if a == SY && b == HL { x }
        else if b == IN && is(a, &[AL, HL, EX, ID, EB, EM, IN, NU]) { x }
        else if is(a, &[AL, HL]) && b == NU || a == NU && is(b, &[AL, HL]) { x }
        else if a == PR && is(b, &[ID, EB, EM]) || is(a, &[ID, EB, EM]) && b == PO { x }
        else if is(a, &[PR, PO]) && is(b, &[AL, HL]) || is(a, &[AL, HL]) && is(b, &[PR, PO]) { x }
        else if is(a, &[CP, NU]) && is(b, &[PO, PR]) || a == CL && b == PO || is(a, &[PO, PR]) && is(b, &[OP, NU]) || is(a, &[HY, IS, NU, SY]) && b == NU { x }
        else if a == JL && is(b, &[JL, JV, H2, H3]) || is(a, &[JV, H2]) && is(b, &[JV, JT]) || is(a, &[JT, H3]) && b == JT { x }
        else if is(a, &[JL, JV, JT, H2, H3]) && is(b, &[IN, PO]) || a == PR && is(b, &[JL, JV, JT, H2, H3]) { x }
        else if is(a, &[AL, HL]) && is(b, &[AL, HL]) { x }
        else if a == IS && is(b, &[AL, HL]) { x }
        else if is(a, &[AL, HL, NU]) && b == OP || a == CP && is(b, &[AL, HL, NU]) { x }
        else if a == RI && b == RI && {
            let mut n = 0; let mut j = i; 
            while j > 0 && base[j - 1] == RI { if !att[j - 1] { n += 1; } j -= 1; }
            n % 2 == 1
        } { x }
        else if a == EB && b == EM { x }
        else { br };
        out.push(r);
    }
    out
}
