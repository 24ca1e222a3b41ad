#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo, on which the checks have to stay quiet.

  quiet.py [-k substring]     works in a scratch copy (/tmp/quiet), which it removes again; /repo is not touched
"""
import os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, P, G = 'intl_pluralrules/src/', 'cldr_pluralrules_parser/src/', 'make_pluralrules/src/'
OPS = ['C01', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09']
LIB = ['C01', 'C02', 'C03', 'C09']
RUL = ['C01', 'C02', 'C03', 'C09', 'C16']
PAR = ['C10', 'C11', 'C12', 'C13', 'C14', 'C16']
GEN = ['C13', 'C14', 'C15', 'C16']
E = []


def edit(name, checks, f, *subs):
    E.append((name, checks, f, subs))


op, li, ru = I + 'operands.rs', I + 'lib.rs', I + 'rules.rs'
# ---- operands
edit('op-strip-prefix', OPS, op, ('''let abs_str = if input.starts_with('-') {
            &input[1..]
        } else {
            &input
        };''', '''let abs_str = input.strip_prefix('-').unwrap_or(input);'''))
edit('op-match-first', OPS, op, ('''let abs_str = if input.starts_with('-') {
            &input[1..]
        } else {
            &input
        };''', '''let negative = input.as_bytes().first() == Some(&b'-');
        let abs_str = match negative { true => &input[1..], false => input };'''))
edit('op-helper', OPS, op, ('''integer_digits =
                u64::from_str(&int_str).map_err(|_| "Could not convert string to integer!")?;''', '''integer_digits = digits(int_str)?;'''),
     ('''fraction_digits0 =
                u64::from_str(dec_str).map_err(|_| "Could not convert string to integer!")?;''', '''fraction_digits0 = digits(dec_str)?;'''),
     ('''macro_rules! impl_integer_type''', '''fn digits(text: &str) -> Result<u64, &'static str> {
    match text.parse::<u64>() {
        Ok(value) => Ok(value),
        Err(_) => Err("Could not convert string to integer!"),
    }
}

macro_rules! impl_integer_type'''))
edit('op-split-once', OPS, op, ('''if let Some(dec_pos) = abs_str.find('.') {
            let int_str = &abs_str[..dec_pos];
            let dec_str = &abs_str[(dec_pos + 1)..];
''', '''if let Some((int_str, dec_str)) = abs_str.split_once('.') {
'''))
edit('op-splitn', OPS, op, ('''if let Some(dec_pos) = abs_str.find('.') {
            let int_str = &abs_str[..dec_pos];
            let dec_str = &abs_str[(dec_pos + 1)..];
''', '''let mut parts = abs_str.splitn(2, '.');
        let int_str = parts.next().unwrap_or("");
        if let Some(dec_str) = parts.next() {
'''))
edit('op-split-at', OPS, op, ('''let int_str = &abs_str[..dec_pos];
            let dec_str = &abs_str[(dec_pos + 1)..];
''', '''let (int_str, rest) = abs_str.split_at(dec_pos);
            let dec_str = &rest[1..];
'''))
edit('op-match', OPS, op, ('if let Some(dec_pos) = abs_str.find(\'.\') {', 'match abs_str.find(\'.\') { Some(dec_pos) => {'),
     ('''        } else {
            // Going through f64 would round integers above 2^53.
            integer_digits = u64::from_str(abs_str).unwrap_or(absolute_value as u64);
            num_fraction_digits0 = 0;
            num_fraction_digits = 0;
            fraction_digits0 = 0;
            fraction_digits = 0;
        }''', '''        } None => {
            integer_digits = match abs_str.parse() { Ok(i) => i, Err(_) => absolute_value as u64 };
            num_fraction_digits = 0;
            num_fraction_digits0 = 0;
            fraction_digits = 0;
            fraction_digits0 = 0;
        } }'''))
edit('op-trim-closure', OPS, op, ("dec_str.trim_end_matches('0')", "dec_str.trim_end_matches(|c| c == '0')"))
edit('op-trim-count', OPS, op, ("let backtrace = dec_str.trim_end_matches('0');",
                                "let zeros = dec_str.bytes().rev().take_while(|b| *b == b'0').count();\n            let backtrace = &dec_str[..dec_str.len() - zeros];"))
edit('op-trim-while', OPS, op, ("let backtrace = dec_str.trim_end_matches('0');",
                                "let mut backtrace = dec_str;\n            while backtrace.ends_with('0') {\n                backtrace = &backtrace[..backtrace.len() - 1];\n            }"))
edit('op-trim-index', OPS, op, ("let backtrace = dec_str.trim_end_matches('0');",
                                "let bytes = dec_str.as_bytes();\n            let mut end = bytes.len();\n            while end > 0 && bytes[end - 1] == b'0' {\n                end -= 1;\n            }\n            let backtrace = &dec_str[..end];"))
edit('op-trim-strip', OPS, op, ("let backtrace = dec_str.trim_end_matches('0');",
                                "let mut backtrace = dec_str;\n            while let Some(rest) = backtrace.strip_suffix('0') {\n                backtrace = rest;\n            }"))
edit('op-first-byte', OPS, op, ("if input.starts_with('-') {", "if !input.is_empty() && input.as_bytes()[0] == b'-' {"))
edit('op-t-if', OPS, op, ('fraction_digits = u64::from_str(backtrace).unwrap_or(0);', 'fraction_digits = if backtrace.is_empty() { 0 } else { u64::from_str(backtrace).unwrap_or(0) };'))
edit('op-parse', OPS, op, ('f64::from_str(&abs_str).map_err(|_| "Incorrect number passed!")?', 'match abs_str.parse::<f64>() { Ok(v) => v, Err(_) => return Err("Incorrect number passed!") }'))
edit('op-ok-or', OPS, op, ('f64::from_str(&abs_str).map_err(|_| "Incorrect number passed!")?', 'f64::from_str(abs_str).ok().ok_or("Incorrect number passed!")?'))
edit('op-return-early', OPS, op, ('''        let integer_digits;
        let num_fraction_digits0;
        let num_fraction_digits;
        let fraction_digits0;
        let fraction_digits;
''', '''        let (integer_digits, num_fraction_digits0, num_fraction_digits, fraction_digits0, fraction_digits);
'''), ('''            integer_digits = u64::from_str(abs_str).unwrap_or(absolute_value as u64);
            num_fraction_digits0 = 0;
            num_fraction_digits = 0;
            fraction_digits0 = 0;
            fraction_digits = 0;
''', '''            let i = u64::from_str(abs_str).unwrap_or_else(|_| absolute_value as u64);
            return Ok(PluralOperands { n: absolute_value, i, v: 0, w: 0, f: 0, t: 0 });
'''))
edit('op-let-tuple', OPS, op, ('''            num_fraction_digits0 = dec_str.len() as usize;
            num_fraction_digits = backtrace.len() as usize;
''', '''            num_fraction_digits = backtrace.len();
            num_fraction_digits0 = num_fraction_digits + (dec_str.len() - backtrace.len());
'''))
edit('op-int-var', OPS, op, ('''                PluralOperands {
                    n: input as f64,
                    i: input as u64,''', '''                let magnitude = input as u64;
                PluralOperands {
                    n: magnitude as f64,
                    i: magnitude,'''))
edit('op-signed-match', OPS, op, ('''let x = (input as isize).checked_abs().ok_or("Number too big")?;
                Ok(PluralOperands {''', '''let x = match (input as i64).checked_abs() {
                    Some(x) => x,
                    None => return Err("Number too big"),
                };
                Ok(PluralOperands {'''))
edit('op-signed-if', OPS, op, ('''let x = (input as isize).checked_abs().ok_or("Number too big")?;''', '''let wide = input as isize;
                if wide == isize::MIN {
                    return Err("Number too big");
                }
                let x = if wide < 0 { -wide } else { wide };'''))
edit('op-signed-unsigned-abs', OPS, op, ('''let x = (input as isize).checked_abs().ok_or("Number too big")?;''', '''if input as isize == isize::MIN {
                    return Err("Number too big");
                }
                let x = input.unsigned_abs();'''))
edit('op-zero-helper', OPS, op, ('''                PluralOperands {
                    n: input as f64,
                    i: input as u64,
                    v: 0,
                    w: 0,
                    f: 0,
                    t: 0,
                }''', '''                integer(input as f64, input as u64)'''), ('''                Ok(PluralOperands {
                    n: x as f64,
                    i: x as u64,
                    v: 0,
                    w: 0,
                    f: 0,
                    t: 0,
                })''', '''                Ok(integer(x as f64, x as u64))'''), ('macro_rules! impl_integer_type', '''fn integer(n: f64, i: u64) -> PluralOperands {
    PluralOperands { n, i, v: 0, w: 0, f: 0, t: 0 }
}

macro_rules! impl_integer_type'''))
edit('op-convert', OPS, op, ('''let as_str: &str = &input.to_string();
                PluralOperands::try_from(as_str)''', '''let text = input.to_string();
                Self::try_from(text.as_str())'''))
edit('op-convert2', OPS, op, ('''let as_str: &str = &input.to_string();
                PluralOperands::try_from(as_str)''', '''PluralOperands::try_from(&*input.to_string())'''))
edit('op-format', OPS, op, ('&input.to_string()', '&format!("{}", input)'))
edit('op-string-own', OPS, op, ('impl_convert_type!(f32 f64 String);', '''impl_convert_type!(f32 f64);

impl TryFrom<String> for PluralOperands {
    type Error = &'static str;
    fn try_from(input: String) -> Result<Self, Self::Error> {
        PluralOperands::try_from(input.as_str())
    }
}'''))
edit('op-sign-cmp', OPS, op, ('''        if absolute_value.is_sign_negative() {
            return Err("Incorrect number passed!");
        }
''', '''        if abs_str.starts_with('-') {
            return Err("Incorrect number passed!");
        }
'''))
edit('op-contains', OPS, op, ('''if let Some(dec_pos) = abs_str.find('.') {''', '''if abs_str.contains('.') {
            let dec_pos = abs_str.find('.').unwrap();'''))
edit('op-position', OPS, op, ('''abs_str.find('.')''', '''abs_str.bytes().position(|b| b == b'.')'''))
# ---- lib
CREATE = '''        let returned_rule = match prt {
            PluralRuleType::CARDINAL => {
                let idx = rules::PRS_CARDINAL.binary_search_by_key(&&langid, |(l, _)| l);
                idx.map(|idx| rules::PRS_CARDINAL[idx].1)
            }
            PluralRuleType::ORDINAL => {
                let idx = rules::PRS_ORDINAL.binary_search_by_key(&&langid, |(l, _)| l);
                idx.map(|idx| rules::PRS_ORDINAL[idx].1)
            }
        };
        match returned_rule {
            Ok(returned_rule) => Ok(Self {
                locale: langid,
                function: returned_rule,
            }),
            Err(_) => Err("unknown locale"),
        }'''
GETL = '''        let prs = match prt {
            PluralRuleType::CARDINAL => rules::PRS_CARDINAL,
            PluralRuleType::ORDINAL => rules::PRS_ORDINAL,
        };
        prs.iter().map(|(l, _)| l.clone()).collect()'''
TABLE = ('''    pub fn get_locales(''', '''    pub fn get_locales_(''')
edit('lib-search-by', LIB, li, (CREATE, '''        let table = match prt {
            PluralRuleType::CARDINAL => rules::PRS_CARDINAL,
            PluralRuleType::ORDINAL => rules::PRS_ORDINAL,
        };
        let idx = table
            .binary_search_by(|(l, _)| l.cmp(&langid))
            .map_err(|_| "unknown locale")?;
        Ok(Self {
            locale: langid,
            function: table[idx].1,
        })'''))
edit('lib-helper', LIB, li, (CREATE, '''        let table = Self::table(prt);
        match table.binary_search_by_key(&&langid, |(l, _)| l) {
            Ok(pos) => {
                let (_, function) = &table[pos];
                Ok(PluralRules { locale: langid, function: *function })
            }
            Err(_) => Err("unknown locale"),
        }'''), (GETL, '''        let mut out = Vec::new();
        for (l, _) in Self::table(prt) {
            out.push(l.clone());
        }
        out
    }

    fn table(prt: PluralRuleType) -> &'static [(LanguageIdentifier, PluralRule)] {
        match prt {
            PluralRuleType::ORDINAL => rules::PRS_ORDINAL,
            PluralRuleType::CARDINAL => rules::PRS_CARDINAL,
        }'''))
edit('lib-linear', LIB, li, (CREATE, '''        let table = match prt {
            PluralRuleType::CARDINAL => rules::PRS_CARDINAL,
            PluralRuleType::ORDINAL => rules::PRS_ORDINAL,
        };
        let found = table.iter().find(|(l, _)| *l == langid);
        match found {
            Some(entry) => Ok(Self { locale: langid, function: entry.1 }),
            None => Err("unknown locale"),
        }'''))
edit('lib-map', LIB, li, ('''        match returned_rule {
            Ok(returned_rule) => Ok(Self {
                locale: langid,
                function: returned_rule,
            }),
            Err(_) => Err("unknown locale"),
        }''', '''        returned_rule
            .map(|function| Self { locale: langid.clone(), function })
            .map_err(|_| "unknown locale")'''))
edit('lib-select-map', LIB, li, ('''        let ops = number.try_into();
        let pr = self.function;
        match ops {
            Ok(ops) => Ok(pr(&ops)),
            Err(_) => Err("Argument can not be parsed to operands."),
        }''', '''        number
            .try_into()
            .map(|ops| (self.function)(&ops))
            .map_err(|_| "Argument can not be parsed to operands.")'''))
edit('lib-select-return', LIB, li, ('''        let ops = number.try_into();
        let pr = self.function;
        match ops {
            Ok(ops) => Ok(pr(&ops)),
            Err(_) => Err("Argument can not be parsed to operands."),
        }''', '''        let operands = match number.try_into() {
            Ok(operands) => operands,
            Err(_) => return Err("Argument can not be parsed to operands."),
        };
        let rule = self.function;
        let category = rule(&operands);
        Ok(category)'''))
edit('lib-select-let', LIB, li, ('''        match ops {
            Ok(ops) => Ok(pr(&ops)),
            Err(_) => Err("Argument can not be parsed to operands."),
        }''', '''        if let Ok(ops) = ops {
            Ok(pr(&ops))
        } else {
            Err("Argument can not be parsed to operands.")
        }'''))
edit('lib-select-okor', LIB, li, ('''        match ops {
            Ok(ops) => Ok(pr(&ops)),
            Err(_) => Err("Argument can not be parsed to operands."),
        }''', '''        let ops = ops.ok().ok_or("Argument can not be parsed to operands.")?;
        Ok(pr(&ops))'''))
edit('lib-getl-capacity', LIB, li, ('prs.iter().map(|(l, _)| l.clone()).collect()', '''let mut locales = Vec::with_capacity(prs.len());
        for entry in prs.iter() {
            locales.push(entry.0.clone());
        }
        locales'''))
edit('lib-getl-index', LIB, li, ('prs.iter().map(|(l, _)| l.clone()).collect()', '''let mut locales = vec![];
        for i in 0..prs.len() {
            locales.push(prs[i].0.clone());
        }
        locales'''))
edit('lib-getl-extend', LIB, li, ('prs.iter().map(|(l, _)| l.clone()).collect()', '''let mut locales = Vec::new();
        locales.extend(prs.iter().map(|entry| entry.0.clone()));
        locales'''))
edit('lib-clone', LIB, li, ('#[derive(Clone)]\npub struct PluralRules', 'pub struct PluralRules'), ('impl PluralRules {', '''impl Clone for PluralRules {
    fn clone(&self) -> Self {
        PluralRules { locale: self.locale.clone(), function: self.function }
    }
}

impl PluralRules {'''))
# ---- rules
edit('rules-let', RUL, ru, ('''if (po.i == 1 && po.v == 0) {''', '''if ({ let one = po.i == 1; let whole = po.v == 0; one && whole }) {'''))
edit('rules-swap', RUL, ru, ('po.i == 1 && po.v == 0', 'po.v == 0 && po.i == 1'))
edit('rules-all-range', RUL, ru, ('(2..=4).contains(&(po.i % 10))', '(po.i % 10 >= 2 && po.i % 10 <= 4)'))
edit('rules-not-range', RUL, ru, ('!(12..=14).contains(&(po.i % 100))', '(po.i % 100 < 12 || 14 < po.i % 100)'))
edit('rules-fn', RUL, ru, ('pub type PluralRule =', '''fn whole(po: &PluralOperands) -> bool {
    po.f == 0
}

pub type PluralRule ='''), ('po.f == 0', 'whole(po)'))
edit('rules-matches', RUL, ru, ('(2..=4).contains(&(po.i % 10))', 'matches!(po.i % 10, 2..=4)'))
# ---- parser
pa, pl = P + 'parser.rs', P + 'lib.rs'
edit('par-value-q', PAR, pa, ('map_res(digit1, |s: &str| s.parse::<usize>().map(Value))(i)', 'map_res(digit1, to_value)(i)'),
     ('fn range(i', '''fn to_value(s: &str) -> Result<Value, std::num::ParseIntError> {
    let n = s.parse::<usize>()?;
    Ok(Value(n))
}

fn range(i'''))
edit('par-range-q', PAR, pa, ('''    map(
        separated_pair(value, tag(".."), value),
        |(lower_val, upper_val)| Range {
            lower_val,
            upper_val,
        },
    )(i)''', '''    let (i, lower_val) = value(i)?;
    let (i, _) = tag("..")(i)?;
    let (i, upper_val) = value(i)?;
    Ok((i, Range { lower_val, upper_val }))'''))
edit('par-relation-q', PAR, pa, ('''    map(
        tuple((expression, space0, relation_operator, space0, range_list)),
        |(expression, _, operator, _, range_list)| Relation {
            expression,
            operator,
            range_list,
        },
    )(i)''', '''    let (i, expression) = expression(i)?;
    let (i, _) = space0(i)?;
    let (i, operator) = relation_operator(i)?;
    let (i, _) = space0(i)?;
    let (i, range_list) = range_list(i)?;
    Ok((
        i,
        Relation {
            expression,
            operator,
            range_list,
        },
    ))'''))
edit('par-comma', PAR, pa, ('separated_nonempty_list(tuple((space0, tag(","), space0)), range_list_item)', 'separated_nonempty_list(comma, range_list_item)'),
     ('separated_nonempty_list(tuple((space0, tag(","), space0)), sample_range)', 'separated_nonempty_list(comma, sample_range)'),
     ('''opt(preceded(
                tuple((space0, tag(","), space0)),
                alt((tag("..."), tag("…"))),
            )),''', '''opt(preceded(comma, alt((tag("..."), tag("…"))))),'''),
     ('fn range_list(i', '''fn comma(i: &str) -> IResult<&str, ()> {
    map(tuple((space0, tag(","), space0)), |_| ())(i)
}

fn range_list(i'''))
edit('par-delimited', PAR, pa, ('sequence::{preceded,', 'sequence::{delimited, preceded,'),
     ('separated_nonempty_list(tuple((space0, tag(","), space0)), range_list_item)', 'separated_nonempty_list(delimited(space0, tag(","), space0), range_list_item)'))
edit('par-alt-order', PAR, pa, ('''        map(tag("="), |_| Operator::EQ),
        map(tag("!="), |_| Operator::NotEQ),''', '''        map(tag("!="), |_| Operator::NotEQ),
        map(tag("="), |_| Operator::EQ),'''))
edit('par-alt-order2', PAR, pa, ('''        map(tag("="), |_| Operator::EQ),
''', ''), ('''        map(tag("within"), |_| Operator::Within),
    ))''', '''        map(tag("within"), |_| Operator::Within),
        map(tag("="), |_| Operator::EQ),
    ))'''))
edit('par-split-op', PAR, pa, ('''        map(
            tuple((
                tag("not"),
                space1,
                alt((
                    map(tag("in"), |_| Operator::NotIn),
                    map(tag("within"), |_| Operator::NotWithin),
                )),
            )),
            |(_, _, v)| v,
        ),''', '''        negated,'''), ('fn relation_operator', '''fn negated(i: &str) -> IResult<&str, Operator> {
    preceded(
        tuple((tag("not"), space1)),
        alt((
            map(tag("within"), |_| Operator::NotWithin),
            map(tag("in"), |_| Operator::NotIn),
        )),
    )(i)
}

fn relation_operator'''))
edit('par-operand-alt', PAR, pa, ('''    map(one_of("nivwft"), |c| match c {
        'n' => Operand::N,
        'i' => Operand::I,
        'v' => Operand::V,
        'w' => Operand::W,
        'f' => Operand::F,
        't' => Operand::T,
        _ => unreachable!(),
    })(i)''', '''    alt((
        map(tag("n"), |_| Operand::N),
        map(tag("i"), |_| Operand::I),
        map(tag("v"), |_| Operand::V),
        map(tag("w"), |_| Operand::W),
        map(tag("f"), |_| Operand::F),
        map(tag("t"), |_| Operand::T),
    ))(i)'''))
edit('par-operand-map', PAR, pa, ('''    map(one_of("nivwft"), |c| match c {
        'n' => Operand::N,
        'i' => Operand::I,
        'v' => Operand::V,
        'w' => Operand::W,
        'f' => Operand::F,
        't' => Operand::T,
        _ => unreachable!(),
    })(i)''', '''    let (rest, c) = one_of("nivwft")(i)?;
    let operand = match c {
        'n' => Operand::N,
        'i' => Operand::I,
        'v' => Operand::V,
        'w' => Operand::W,
        'f' => Operand::F,
        _ => Operand::T,
    };
    Ok((rest, operand))'''))
edit('par-is-match', PAR, pa, ('''            if n.is_some() {
                Operator::IsNot
            } else {
                Operator::Is
            }''', '''            match n {
                Some(_) => Operator::IsNot,
                None => Operator::Is,
            }'''))
edit('par-cond-start', PAR, pa, ('''    if i.trim().is_empty() {
        return IResult::Ok(("", Condition(vec![])));
    }

    if i.trim().starts_with("@") {
        return IResult::Ok((i.trim_start(), Condition(vec![])));
    }''', '''    let rest = i.trim_start();
    if rest.is_empty() || rest.starts_with('@') {
        return Ok((rest, Condition(Vec::new())));
    }'''))
edit('par-expr-q', PAR, pa, ('''    map(tuple((operand, mod_expression)), |(operand, modulus)| {
        Expression { operand, modulus }
    })(i)''', '''    let (i, operand) = operand(i)?;
    let (i, modulus) = mod_expression(i)?;
    Ok((i, Expression { operand, modulus }))'''))
edit('par-expr-pair', PAR, pa, ('map(tuple((operand, mod_expression))', 'map(pair(operand, mod_expression)'), ('sequence::{preceded,', 'sequence::{pair, preceded,'))
edit('par-mod-opt', PAR, pa, ('''    opt(map(
        preceded(tuple((space0, alt((tag("mod"), tag("%"))), space1)), value),
        Modulo,
    ))(i)''', '''    let sign = tuple((space0, alt((tag("%"), tag("mod"))), space1));
    opt(map(preceded(sign, value), |v| Modulo(v)))(i)'''))
edit('par-samples-and', PAR, pa, ('''            if integer.is_some() || decimal.is_some() {
                Some(Samples { integer, decimal })
            } else {
                None
            }''', '''            match (&integer, &decimal) {
                (None, None) => None,
                _ => Some(Samples { integer, decimal }),
            }'''))
edit('par-samples-helper', PAR, pa, ('''            opt(preceded(
                tuple((space0, tag("@integer"), space1)),
                sample_list,
            )),
            opt(preceded(
                tuple((space0, tag("@decimal"), space1)),
                sample_list,
            )),''', '''            |i| tagged_list("@integer", i),
            |i| tagged_list("@decimal", i),'''), ('fn samples(i', '''fn tagged_list<'a>(name: &str, i: &'a str) -> IResult<&'a str, Option<SampleList>> {
    opt(preceded(tuple((space0, tag(name), space1)), sample_list))(i)
}

fn samples(i'''))
edit('par-decimal-q', PAR, pa, ('''    map(
        tuple((value, opt(preceded(tag("."), value)))),
        |(integer, decimal)| DecimalValue { integer, decimal },
    )(i)''', '''    let (i, integer) = value(i)?;
    let (i, decimal) = opt(preceded(tag("."), value))(i)?;
    Ok((i, DecimalValue { integer, decimal }))'''))
edit('par-rule-q', PAR, pa, ('''    map(tuple((parse_condition, samples)), |(condition, samples)| {
        Rule { condition, samples }
    })(i)''', '''    let (i, condition) = parse_condition(i)?;
    let (i, samples) = samples(i)?;
    Ok((i, Rule { condition, samples }))'''))
edit('par-char', PAR, pa, ('tuple((space0, tag(","), space0)), range_list_item', 'tuple((space0, char(\',\'), space0)), range_list_item'), ('complete::{digit1', 'complete::{char, digit1'))
edit('par-item-q', PAR, pa, ('''    alt((
        map(range, RangeListItem::Range),
        map(value, RangeListItem::Value),
    ))(i)''', '''    let (rest, lower_val) = value(i)?;
    match preceded(tag(".."), value)(rest) {
        Ok((rest, upper_val)) => Ok((rest, RangeListItem::Range(Range { lower_val, upper_val }))),
        Err(_) => Ok((rest, RangeListItem::Value(lower_val))),
    }'''))
edit('par-lib-map', PAR, pl, ('''    match parser::parse_condition(source.as_ref()) {
        Ok((_, rule)) => Ok(rule),
        _ => Err("Parser failed".to_string()),
    }''', '''    parser::parse_condition(source.as_ref())
        .map(|(_, condition)| condition)
        .map_err(|_| "Parser failed".to_string())'''))
edit('par-lib-if', PAR, pl, ('''        Ok(("", rule)) => Ok(rule),
        //Ok((_, rule)) => Ok(rule),
        Ok((left, _)) => Err(format!("Left string: {}", left)),
        _ => Err("Parser failed".to_string()),''', '''        Ok((left, rule)) => {
            if left.is_empty() {
                Ok(rule)
            } else {
                Err(format!("Left string: {}", left))
            }
        }
        Err(_) => Err(String::from("Parser failed")),'''))
edit('par-lib-let', PAR, pl, ('''    match parser::parse_rule(source.as_ref()) {''', '''    let text: &str = source.as_ref();
    let parsed = parser::parse_rule(text);
    match parsed {'''))
edit('par-value-comb', PAR, pa, ('''        map(tag("="), |_| Operator::EQ),
        map(tag("!="), |_| Operator::NotEQ),''', '''        nom::combinator::value(Operator::EQ, tag("=")),
        nom::combinator::value(Operator::NotEQ, tag("!=")),'''), )
# ---- generator
gp, gr, gl = G + 'parser/gen_pr.rs', G + 'parser/gen_rs.rs', G + 'lib.rs'
edit('gen-rangl-iter', GEN, gp, ('''    for x in rangl.0 {
        match &x {
            RangeListItem::Value(x) => litints.push(convert_literal(x.0)),
            RangeListItem::Range(x) => litrange.push(convert_range(x.lower_val.0, x.upper_val.0)),
        }
    }''', '''    for x in rangl.0.iter() {
        if let RangeListItem::Value(v) = x {
            litints.push(convert_literal(v.0));
        } else if let RangeListItem::Range(r) = x {
            litrange.push(convert_range(r.lower_val.0, r.upper_val.0));
        }
    }'''))
edit('gen-and-map', GEN, gp, ('''    let mut andcondvec = Vec::<TokenStream>::new();

    // unpack the AndCondition and get all relations from within it
    for a in acond.0 {
        andcondvec.push(create_relation(a));
    }
''', '''    let andcondvec: Vec<TokenStream> = acond.0.into_iter().map(create_relation).collect();
'''))
edit('gen-or-map', GEN, gp, ('''    let mut condvec = Vec::<TokenStream>::new();

    // unpack the OrCondition and get all AndConditions from within it
    for c in cond.0 {
        condvec.push(create_and_condition(c));
    }
''', '''    let condvec = cond.0.into_iter().map(|c| create_and_condition(c)).collect::<Vec<_>>();
'''))
edit('gen-mod-match', GEN, gp, ('''    let (mod_check, m) = if left.modulus != None {
        (true, convert_literal((left.modulus.unwrap().0).0))
    } else {
        (false, convert_literal(0))
    };''', '''    let (mod_check, m) = match left.modulus {
        Some(Modulo(v)) => (true, convert_literal(v.0)),
        None => (false, convert_literal(0)),
    };'''))
edit('gen-symbol-helper', GEN, gp, ('''                (
                    if !mod_check {
                        quote!(po.#l)
                    } else {
                        quote!(po.#l % #m)
                    },
                    quote!(#r),
                )''', '''                (plain_symbol(mod_check, &l, &m), quote!(#r))'''), ('/// Create a token stream representation from the AST Relation', '''fn plain_symbol(mod_check: bool, l: &Ident, m: &Literal) -> TokenStream {
    if mod_check {
        quote!(po.#l % #m)
    } else {
        quote!(po.#l)
    }
}

/// Create a token stream representation from the AST Relation'''))
edit('gen-join-match', GEN, gp, ('''            if relations.len() > 1 {
                quote! { ( #(#relations)||* ) }
            } else {
                quote! { #(#relations)||* }
            }''', '''            match relations.len() {
                0 | 1 => quote! { #(#relations)||* },
                _ => quote! { ( #(#relations)||* ) },
            }'''))
edit('gen-paren-always', GEN, gp, ('''            if relations.len() > 1 {
                quote! { ( #(#relations)||* ) }
            } else {
                quote! { #(#relations)||* }
            }''', '''            quote! { ( #(#relations)||* ) }'''))
edit('gen-mid-fold', GEN, gr, ('''            for pair in iter {
                let condition = create_return(pair.0, &pair.1);
                tokens = quote! { #tokens else #condition };
            }
            tokens = quote! { #tokens else { PluralCategory::OTHER } };
            tokens''', '''            while let Some((cat, exp)) = iter.next() {
                let condition = create_return(*cat, exp);
                tokens = quote! { #tokens else #condition };
            }
            quote! { #tokens else { PluralCategory::OTHER } }'''))
edit('gen-type-clone', GEN, gr, ('''    let mut tokens = Vec::<TokenStream>::new();

    let match_name''', '''    let match_name'''), ('''    for func in &streams {
        tokens.push(func.clone());
    }
    quote! {''', '''    let tokens = streams;
    quote! {'''))
edit('gen-fn-map', GEN, gr, ('''    let mut tokens = Vec::<TokenStream>::new();
    for (pr_type, stream) in streams {
        tokens.push(create_pr_type(&pr_type, stream));
    }''', '''    let tokens: Vec<TokenStream> = streams
        .into_iter()
        .map(|(pr_type, stream)| create_pr_type(&pr_type, stream))
        .collect();'''))
edit('gen-cat-match', GEN, gl, ('''            let cat = if cat_name == "zero" {
                PluralCategory::ZERO
            } else if cat_name == "one" {
                PluralCategory::ONE
            } else if cat_name == "two" {
                PluralCategory::TWO
            } else if cat_name == "few" {
                PluralCategory::FEW
            } else if cat_name == "many" {
                PluralCategory::MANY
            } else {
                PluralCategory::OTHER
            };
''', '''            let cat = category(cat_name);
'''), ('fn gen_type_rs(', '''fn category(name: &str) -> PluralCategory {
    match name {
        "zero" => PluralCategory::ZERO,
        "one" => PluralCategory::ONE,
        "two" => PluralCategory::TWO,
        "few" => PluralCategory::FEW,
        "many" => PluralCategory::MANY,
        _ => PluralCategory::OTHER,
    }
}

fn gen_type_rs('''))
edit('gen-nth', GEN, gl, ('''rule_name.split('-').collect::<Vec<_>>()[2]''', '''rule_name.split('-').nth(2).unwrap()'''))
edit('gen-sort-key', GEN, gl, ('''rules.sort_unstable_by(|(langid1, _), (langid2, _)| langid1.cmp(langid2));''', '''rules.sort_by(|a, b| a.0.cmp(&b.0));'''))
edit('gen-collect-loop', GEN, gl, ('''        .into_iter()
        .filter_map(|(key, value)| {
            if key == "root" {
                None
            } else {
                let langid = key
                    .parse()
                    .unwrap_or_else(|_| panic!("Parsing {} failed", key));
                Some((langid, value))
            }
        })
        .collect();''', '''        .into_iter()
        .filter(|(key, _)| key != "root")
        .map(|(key, value)| {
            let langid: LanguageIdentifier = key
                .parse()
                .unwrap_or_else(|_| panic!("Parsing {} failed", key));
            (langid, value)
        })
        .collect();'''))
edit('gen-version-match', GEN, gl, ('''        if cldr_version.is_none() {
            cldr_version = Some(res_cldr_version);
        } else if cldr_version != Some(res_cldr_version) {
            panic!("All input resources must use the same CLDR version!");
        }''', '''        match &cldr_version {
            None => cldr_version = Some(res_cldr_version),
            Some(v) if *v == res_cldr_version => {}
            Some(_) => panic!("All input resources must use the same CLDR version!"),
        }'''))
edit('gen-insert-check', GEN, gl, ('''            if tokens.contains_key("cardinal") {
                panic!("Cannot provide two inputs with the same data!");
            }
            tokens.insert("cardinal".to_owned(), rule_tokens);''', '''            if tokens.insert("cardinal".to_owned(), rule_tokens).is_some() {
                panic!("Cannot provide two inputs with the same data!");
            }'''))
edit('gen-helper-add', GEN, gl, ('''            if tokens.contains_key("cardinal") {
                panic!("Cannot provide two inputs with the same data!");
            }
            tokens.insert("cardinal".to_owned(), rule_tokens);''', '''            add_type(&mut tokens, "cardinal", rule_tokens);'''),
     ('''            if tokens.contains_key("ordinal") {
                panic!("Cannot provide two inputs with the same data!");
            }
            tokens.insert("ordinal".to_owned(), rule_tokens);''', '''            add_type(&mut tokens, "ordinal", rule_tokens);'''),
     ('fn gen_type_rs(', '''fn add_type(
    tokens: &mut BTreeMap<String, Vec<TokenStream>>,
    name: &str,
    rule_tokens: Vec<TokenStream>,
) {
    if tokens.contains_key(name) {
        panic!("Cannot provide two inputs with the same data!");
    }
    tokens.insert(name.to_owned(), rule_tokens);
}

fn gen_type_rs('''))
edit('gen-rangl-two', GEN, gp, ('''    let mut litints = Vec::new();
    let mut litrange = Vec::new();

    for x in rangl.0 {
        match &x {
            RangeListItem::Value(x) => litints.push(convert_literal(x.0)),
            RangeListItem::Range(x) => litrange.push(convert_range(x.lower_val.0, x.upper_val.0)),
        }
    }
''', '''    let litints = rangl.0.iter().filter_map(|x| match x {
        RangeListItem::Value(x) => Some(convert_literal(x.0)),
        RangeListItem::Range(_) => None,
    }).collect();
    let litrange = rangl.0.iter().filter_map(|x| match x {
        RangeListItem::Value(_) => None,
        RangeListItem::Range(x) => Some(convert_range(x.lower_val.0, x.upper_val.0)),
    }).collect();
'''))
edit('gen-and-enumerate', GEN, gp, ('''    let mut andcondvec = Vec::<TokenStream>::new();

    // unpack the AndCondition and get all relations from within it
    for a in acond.0 {
        andcondvec.push(create_relation(a));
    }

    // Unfold AndConditions and tokenize together with &&
    quote! { ( #(#andcondvec)&&* ) }''', '''    let mut all = TokenStream::new();
    for (idx, a) in acond.0.into_iter().enumerate() {
        if idx > 0 {
            all.extend(quote!(&&));
        }
        all.extend(create_relation(a));
    }
    quote! { ( #all ) }'''))
edit('gen-or-reduce', GEN, gp, ('''    let mut condvec = Vec::<TokenStream>::new();

    // unpack the OrCondition and get all AndConditions from within it
    for c in cond.0 {
        condvec.push(create_and_condition(c));
    }

    // unfold OrConditions and tokenize together with ||
    quote! { #(#condvec)||* }''', '''    cond.0
        .into_iter()
        .map(create_and_condition)
        .reduce(|a, b| quote! { #a || #b })
        .unwrap_or_default()'''))
edit('gen-or-first', GEN, gp, ('''    let mut condvec = Vec::<TokenStream>::new();

    // unpack the OrCondition and get all AndConditions from within it
    for c in cond.0 {
        condvec.push(create_and_condition(c));
    }

    // unfold OrConditions and tokenize together with ||
    quote! { #(#condvec)||* }''', '''    let mut all = TokenStream::new();
    let mut first = true;
    for c in cond.0 {
        let part = create_and_condition(c);
        if first {
            all = part;
            first = false;
        } else {
            all = quote! { #all || #part };
        }
    }
    all'''))
edit('gen-rel-extend', GEN, gp, ('''        for r in r1.0 {
            // Variants handled here''', '''        relations.extend(r1.0.into_iter().map(|r| {
            // Variants handled here'''), ('''            let rel_tokens = quote! { #symbol #o #rval };
            relations.push(rel_tokens);
        }''', '''            quote! { #symbol #o #rval }
        }));'''), ('''if left.modulus != None {
        (true, convert_literal((left.modulus.unwrap().0).0))''', '''if let Some(modulus) = &left.modulus {
        (true, convert_literal((modulus.0).0))'''))
edit('gen-and-while', GEN, gp, ('''    let mut andcondvec = Vec::<TokenStream>::new();
''', '''    let mut andcondvec = Vec::<TokenStream>::with_capacity(acond.0.len());
'''), ('''    for a in acond.0 {
        andcondvec.push(create_relation(a));
    }''', '''    let mut list = acond.0.into_iter();
    while let Some(a) = list.next() {
        andcondvec.push(create_relation(a));
    }'''))
edit('gen-within-first', GEN, gp, ('''        let rfront = &(r1.1)[0].0;
        let rback = &(r1.1)[0].1;
''', '''        let (rfront, rback) = r1.1.first().expect("a range");
'''))
edit('gen-negated', GEN, gp, ('''            let rel_tokens = match operator {
                Operator::In | Operator::Is | Operator::EQ => {
                    quote! { (#rfront ..= #rback).contains(&(#symbol)) #perim }
                }
                Operator::NotIn | Operator::NotEQ | Operator::IsNot => {
                    quote! { !(#rfront ..= #rback).contains(&(#symbol)) #perim }
                }
                Operator::Within | Operator::NotWithin => {
                    panic!("There was a problem with the source file.")
                }
            };''', '''            let neg = if matches!(operator, Operator::NotIn | Operator::NotEQ | Operator::IsNot) {
                Some(quote!(!))
            } else {
                None
            };
            let rel_tokens = quote! { #neg(#rfront ..= #rback).contains(&(#symbol)) #perim };'''))
edit('gen-swap', GEN, gp, ('''fn create_relation(rel: Relation) -> TokenStream {
    let left = rel.expression;
    let operator = rel.operator;
    let right = rel.range_list;
''', '''fn create_relation(rel: Relation) -> TokenStream {
    let Relation { expression: left, operator, range_list: right } = rel;
'''))
edit('gen-operand-fn', GEN, gp, ('''    let l = match left.operand {
        Operand::N => "n",
        Operand::I => "i",
        Operand::V => "v",
        Operand::T => "t",
        Operand::W => "w",
        Operand::F => "f",
    };
    let l = Ident::new(l, Span::call_site());
''', '''    let l = field(&left.operand);
'''), ('/// Create a token stream representation from the AST Relation', '''/// Field of the operands structure
fn field(operand: &Operand) -> Ident {
    let name = match *operand {
        Operand::N => 'n',
        Operand::I => 'i',
        Operand::V => 'v',
        Operand::W => 'w',
        Operand::F => 'f',
        Operand::T => 't',
    };
    Ident::new(&name.to_string(), Span::call_site())
}

/// Create a token stream representation from the AST Relation'''))
edit('gen-format-ident', GEN, gp, ('''    let l = Ident::new(l, Span::call_site());
''', '''    let l = quote::format_ident!("{}", l);
'''), ('use proc_macro2::{Ident, Literal, Span, TokenStream};', 'use proc_macro2::{Literal, TokenStream};'))
edit('gen-merge-loops', GEN, gp, ('''    // unpack the OrCondition and get all AndConditions from within it
    for c in cond.0 {
        condvec.push(create_and_condition(c));
    }
''', '''    for c in cond.0 {
        let mut parts = Vec::new();
        for a in c.0 {
            parts.push(create_relation(a));
        }
        condvec.push(quote! { ( #(#parts)&&* ) });
    }
'''), ('''// Unfold AndConditions and tokenize together with &&
fn create_and_condition(acond: AndCondition) -> TokenStream {
    let mut andcondvec = Vec::<TokenStream>::new();

    // unpack the AndCondition and get all relations from within it
    for a in acond.0 {
        andcondvec.push(create_relation(a));
    }

    // Unfold AndConditions and tokenize together with &&
    quote! { ( #(#andcondvec)&&* ) }
}
''', ''))
edit('gen-split-within', GEN, gp, ('''    if operator == Operator::Within || operator == Operator::NotWithin {
        let rfront = &(r1.1)[0].0;
        let rback = &(r1.1)[0].1;
''', '''    let (values, ranges) = r1;
    if operator == Operator::Within || operator == Operator::NotWithin {
        let rfront = &ranges[0].0;
        let rback = &ranges[0].1;
'''), ('for r in r1.0 {', 'for r in values {'), ('for r in r1.1 {', 'for (rfront, rback) in ranges {'), ('''            let rfront = r.0;
            let rback = r.1;

''', ''))
# ---- comments and statements that do nothing
for f, c in ((op, OPS), (li, LIB), (ru, RUL), (pa, PAR), (pl, PAR), (gp, GEN), (gr, GEN), (gl, GEN)):
    edit('comment-' + os.path.basename(f) + ('-p' if f == pl else '-g' if f == gl else ''), c, f, (None, '\n// a comment\n'))


# ---- the tool
mn = G + 'main.rs'
TOOL = ['C17']
edit('tool-fs-write', TOOL, mn, ('''    let mut file = fs::File::create(output_path)?;
    file.write_all(complete_rs_code.as_bytes())?;
''', '''    fs::write(output_path, complete_rs_code)?;
'''), ('use std::io::Write;\n', ''))
edit('tool-fs-write-ref', TOOL, mn, ('''    let mut file = fs::File::create(output_path)?;
    file.write_all(complete_rs_code.as_bytes())?;
''', '''    fs::write(output_path, &complete_rs_code)?;
'''), ('use std::io::Write;\n', ''))
edit('tool-loop', TOOL, mn, ('''    let input_jsons = input_paths
        .iter()
        .map(|path| fs::read_to_string(path).expect("file not found"))
        .collect::<Vec<_>>();
''', '''    let mut input_jsons = Vec::with_capacity(input_paths.len());
    for path in &input_paths {
        input_jsons.push(fs::read_to_string(path).expect("file not found"));
    }
'''))
edit('tool-values-map', TOOL, mn, ('''    let input_paths: Vec<&str> = matches.values_of("input-files").unwrap().collect();

    let input_jsons = input_paths
        .iter()
        .map(''', '''    let input_jsons = matches
        .values_of("input-files")
        .unwrap()
        .map('''))
edit('tool-read-q', TOOL, mn, ('''        .map(|path| fs::read_to_string(path).expect("file not found"))
        .collect::<Vec<_>>();
''', '''        .map(|path| fs::read_to_string(path))
        .collect::<Result<Vec<_>, _>>()?;
'''))
edit('tool-read-match', TOOL, mn, ('''        .map(|path| fs::read_to_string(path).expect("file not found"))
''', '''        .map(|path| match fs::read_to_string(path) {
            Ok(text) => text,
            Err(e) => panic!("cannot read {}: {}", path, e),
        })
'''))
edit('tool-helper', TOOL, mn, ('''    if !matches.is_present("ugly") {
        Command::new("rustfmt")
            .args(&[output_path])
            .output()
            .expect("Failed to format the output using `rustfmt`");
    }
''', '''    if !matches.is_present("ugly") {
        format_file(output_path);
    }
'''), ('fn main()', '''fn format_file(path: &str) {
    Command::new("rustfmt")
        .arg(path)
        .output()
        .expect("Failed to format the output using `rustfmt`");
}

fn main()'''))
edit('tool-early', TOOL, mn, ('''    if !matches.is_present("ugly") {
        Command::new("rustfmt")
            .args(&[output_path])
            .output()
            .expect("Failed to format the output using `rustfmt`");
    }

    Ok(())''', '''    drop(file);
    let ugly = matches.is_present("ugly");
    if ugly {
        return Ok(());
    }
    let mut cmd = Command::new("rustfmt");
    cmd.arg(output_path);
    if let Err(e) = cmd.output() {
        panic!("Failed to format the output using `rustfmt`: {}", e);
    }
    Ok(())'''))
edit('tool-run', TOOL, mn, ('fn main() -> std::io::Result<()> {', '''fn main() {
    if let Err(e) = run() {
        eprintln!("{}", e);
        std::process::exit(1);
    }
}

fn run() -> std::io::Result<()> {'''))
edit('tool-write-fn', TOOL, mn, ('''    let mut file = fs::File::create(output_path)?;
    file.write_all(complete_rs_code.as_bytes())?;
''', '''    write_output(output_path, &complete_rs_code)?;
'''), ('fn main()', '''fn write_output(path: &str, code: &str) -> std::io::Result<()> {
    let mut file = fs::File::create(path)?;
    file.write_all(code.as_bytes())
}

fn main()'''))
edit('tool-args', TOOL, mn, ('''        .args_from_usage(
            "<input-files> -i, --input=<PATH>... 'Input CLDR JSON plural rules files'
             <output-file> -o, --output=<PATH> 'Output RS file'
             [ugly] -u, --ugly",
        )
''', '''        .arg(clap::Arg::with_name("input-files").short("i").long("input").value_name("PATH").multiple(true).required(true).help("Input CLDR JSON plural rules files"))
        .arg(clap::Arg::with_name("output-file").short("o").long("output").value_name("PATH").required(true).help("Output RS file"))
        .arg(clap::Arg::with_name("ugly").short("u").long("ugly"))
'''))
edit('tool-path-first', TOOL, mn, ('''    let output_path = matches.value_of("output-file").unwrap();
''', ''), ('''    let input_paths:''', '''    let output_path = matches.value_of("output-file").unwrap();
    let pretty = !matches.is_present("ugly");
    let input_paths:'''), ('''    if !matches.is_present("ugly") {''', '''    if pretty {'''))
edit('tool-write-macro', TOOL, mn, ('file.write_all(complete_rs_code.as_bytes())?;', 'write!(file, "{}", complete_rs_code)?;'))
edit('tool-bufwriter', TOOL, mn, ('''    let mut file = fs::File::create(output_path)?;
    file.write_all(complete_rs_code.as_bytes())?;
''', '''    let mut file = std::io::BufWriter::new(fs::File::create(output_path)?);
    file.write_all(complete_rs_code.as_bytes())?;
    file.flush()?;
    drop(file);
'''))
edit('tool-openoptions', TOOL, mn, ('fs::File::create(output_path)?', 'fs::OpenOptions::new().write(true).create(true).truncate(true).open(output_path)?'))
edit('tool-nothing', TOOL, mn, ('''    let complete_rs_code = ''', '''    let _unused = 0;
    let complete_rs_code = '''))
edit('tool-status', TOOL, mn, ('''            .output()
''', '''            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
'''))
edit('tool-string-path', TOOL, mn, ('''    let output_path = matches.value_of("output-file").unwrap();
''', '''    let output_path = matches.value_of("output-file").unwrap().to_string();
'''), ('fs::File::create(output_path)', 'fs::File::create(&output_path)'), ('.args(&[output_path])', '.args(&[&output_path])'))
edit('tool-pathbuf', TOOL, mn, ('''    let output_path = matches.value_of("output-file").unwrap();
''', '''    let output_path = std::path::Path::new(matches.value_of("output-file").unwrap());
'''))
edit('comment-main.rs', TOOL, mn, (None, '\n// end of the tool\n'))

# ---- second batch
edit('op2-compare-dash', OPS, op, ("""let abs_str = if input.starts_with('-') {
            &input[1..]
        } else {
            &input
        };""", """let (sign, rest) = input.split_at(if input.starts_with("-") { 1 } else { 0 });
        let abs_str = if sign == "-" { rest } else { input };"""))
edit('op2-chars', OPS, op, ("""let abs_str = if input.starts_with('-') {
            &input[1..]
        } else {
            &input
        };""", """let mut chars = input.chars();
        let abs_str = match chars.next() {
            Some('-') => chars.as_str(),
            _ => input,
        };"""))
edit('op2-empty-backtrace', OPS, op, ('''fraction_digits = u64::from_str(backtrace).unwrap_or(0);''', '''fraction_digits = if backtrace == "" { 0 } else { u64::from_str(backtrace).unwrap_or(0) };'''))
edit('op2-struct-update', OPS, op, ('''        Ok(PluralOperands {
            n: absolute_value,
            i: integer_digits,
            v: num_fraction_digits0,
            w: num_fraction_digits,
            f: fraction_digits0,
            t: fraction_digits,
        })''', '''        let mut ops = PluralOperands {
            n: absolute_value,
            i: 0,
            v: 0,
            w: 0,
            f: 0,
            t: 0,
        };
        ops.i = integer_digits;
        ops.v = num_fraction_digits0;
        ops.w = num_fraction_digits;
        ops.f = fraction_digits0;
        ops.t = fraction_digits;
        Ok(ops)'''))
edit('op2-const-err', OPS, op, ('''impl<'a> TryFrom<&'a str> for PluralOperands {''', '''const BAD_INTEGER: &str = "Could not convert string to integer!";
const BAD_NUMBER: &str = "Incorrect number passed!";

impl<'a> TryFrom<&'a str> for PluralOperands {'''), ('''.map_err(|_| "Could not convert string to integer!")''', '''.or(Err(BAD_INTEGER))'''), ('''.map_err(|_| "Incorrect number passed!")''', '''.map_err(|_| BAD_NUMBER)'''))
edit('op2-float-impl', OPS, op, ('''impl_convert_type!(f32 f64 String);''', '''impl_convert_type!(f32 String);

impl TryFrom<f64> for PluralOperands {
    type Error = &'static str;
    fn try_from(input: f64) -> Result<Self, Self::Error> {
        let input = input.abs();
        let as_str: &str = &input.to_string();
        PluralOperands::try_from(as_str)
    }
}'''))
edit('op2-float-fast', OPS + ['C02'], op, ('''impl_convert_type!(f32 f64 String);''', '''impl_convert_type!(f32 String);

impl TryFrom<f64> for PluralOperands {
    type Error = &'static str;
    fn try_from(input: f64) -> Result<Self, Self::Error> {
        if input.fract() == 0.0 && input.abs() < 9e15 {
            return PluralOperands::try_from(input as i64);
        }
        let as_str: &str = &input.to_string();
        PluralOperands::try_from(as_str)
    }
}'''))
edit('op2-string-direct', OPS, op, ('''impl_convert_type!(f32 f64 String);''', '''impl_convert_type!(f32 f64);

impl TryFrom<String> for PluralOperands {
    type Error = &'static str;
    fn try_from(input: String) -> Result<Self, Self::Error> {
        Self::try_from(input.as_str())
    }
}'''))
edit('op2-integer-helper', OPS, op, ('''                // XXXManishearth converting from u32 or u64 to isize may wrap
                PluralOperands {
                    n: input as f64,
                    i: input as u64,
                    v: 0,
                    w: 0,
                    f: 0,
                    t: 0,
                }''', '''PluralOperands::integer(input as u64)'''), ('''                Ok(PluralOperands {
                    n: x as f64,
                    i: x as u64,
                    v: 0,
                    w: 0,
                    f: 0,
                    t: 0,
                })''', '''Ok(PluralOperands::integer(x as u64))'''), ('''macro_rules! impl_integer_type''', '''impl PluralOperands {
    const fn integer(i: u64) -> Self {
        Self { n: i as f64, i, v: 0, w: 0, f: 0, t: 0 }
    }
}

macro_rules! impl_integer_type'''))
edit('op2-fraction-fn', OPS, op, ('''            let backtrace = dec_str.trim_end_matches('0');

            num_fraction_digits0 = dec_str.len() as usize;
            num_fraction_digits = backtrace.len() as usize;
            fraction_digits0 =
                u64::from_str(dec_str).map_err(|_| "Could not convert string to integer!")?;
            fraction_digits = u64::from_str(backtrace).unwrap_or(0);''', '''            let fraction = fraction(dec_str)?;
            num_fraction_digits0 = fraction.0;
            num_fraction_digits = fraction.1;
            fraction_digits0 = fraction.2;
            fraction_digits = fraction.3;'''), ('''macro_rules! impl_integer_type''', '''/// v, w, f and t of the digits after the point
fn fraction(digits: &str) -> Result<(usize, usize, u64, u64), &'static str> {
    let f = digits.parse::<u64>().map_err(|_| "Could not convert string to integer!")?;
    let kept = digits.trim_end_matches('0');
    let t = kept.parse::<u64>().unwrap_or_default();
    Ok((digits.len(), kept.len(), f, t))
}

macro_rules! impl_integer_type'''))
edit('op2-t-div', OPS, op, ('''fraction_digits = u64::from_str(backtrace).unwrap_or(0);''', '''fraction_digits = match backtrace.parse() {
                Ok(t) => t,
                Err(_) => 0,
            };'''))
# ---- lib
edit('lib2-table-fn', LIB, li, ('''        let returned_rule = match prt {
            PluralRuleType::CARDINAL => {
                let idx = rules::PRS_CARDINAL.binary_search_by_key(&&langid, |(l, _)| l);
                idx.map(|idx| rules::PRS_CARDINAL[idx].1)
            }
            PluralRuleType::ORDINAL => {
                let idx = rules::PRS_ORDINAL.binary_search_by_key(&&langid, |(l, _)| l);
                idx.map(|idx| rules::PRS_ORDINAL[idx].1)
            }
        };
        match returned_rule {
            Ok(returned_rule) => Ok(Self {
                locale: langid,
                function: returned_rule,
            }),
            Err(_) => Err("unknown locale"),
        }''', '''        let table = Self::table(prt);
        let idx = table
            .binary_search_by(|(l, _)| l.cmp(&langid))
            .map_err(|_| "unknown locale")?;
        let (_, function) = table[idx];
        Ok(Self { locale: langid, function })'''), ('''        let prs = match prt {
            PluralRuleType::CARDINAL => rules::PRS_CARDINAL,
            PluralRuleType::ORDINAL => rules::PRS_ORDINAL,
        };
        prs.iter()''', '''        Self::table(prt).iter()'''), ('''    /// Returns the locale name''', '''    fn table(prt: PluralRuleType) -> &'static [(LanguageIdentifier, PluralRule)] {
        match prt {
            PluralRuleType::CARDINAL => rules::PRS_CARDINAL,
            PluralRuleType::ORDINAL => rules::PRS_ORDINAL,
        }
    }

    /// Returns the locale name'''))
edit('lib2-select-q', LIB, li, ('''        let ops = number.try_into();
        let pr = self.function;
        match ops {
            Ok(ops) => Ok(pr(&ops)),
            Err(_) => Err("Argument can not be parsed to operands."),
        }''', '''        let ops: PluralOperands = number
            .try_into()
            .map_err(|_| "Argument can not be parsed to operands.")?;
        Ok((self.function)(&ops))'''))
edit('lib2-getl-for', LIB, li, ('''        prs.iter().map(|(l, _)| l.clone()).collect()''', '''        let mut locales = Vec::with_capacity(prs.len());
        for (locale, _) in prs {
            locales.push(locale.to_owned());
        }
        locales'''))
# ---- parser
pa, pl = P + 'parser.rs', P + 'lib.rs'
edit('par2-sep-fns', PAR, pa, ('''tuple((space0, tag(","), space0))''', '''comma'''), ('''fn value(i: &str)''', '''fn comma(i: &str) -> IResult<&str, &str> {
    let (i, _) = space0(i)?;
    let (i, c) = tag(",")(i)?;
    let (i, _) = space0(i)?;
    Ok((i, c))
}

fn value(i: &str)'''))
edit('par2-word', PAR, pa, ('''tuple((space1, tag("and"), space1))''', '''word("and")'''), ('''tuple((space1, tag("or"), space1))''', '''word("or")'''), ('''fn value(i: &str)''', '''fn word(w: &'static str) -> impl Fn(&str) -> IResult<&str, &str> {
    move |i| {
        let (i, _) = space1(i)?;
        let (i, r) = tag(w)(i)?;
        let (i, _) = space1(i)?;
        Ok((i, r))
    }
}

fn value(i: &str)'''))
edit('par2-block', PAR, pa, ('''            opt(preceded(
                tuple((space0, tag("@integer"), space1)),
                sample_list,
            )),
            opt(preceded(
                tuple((space0, tag("@decimal"), space1)),
                sample_list,
            )),''', '''            opt(block("@integer")),
            opt(block("@decimal")),'''), ('''fn samples(i: &str)''', '''fn block(name: &'static str) -> impl Fn(&str) -> IResult<&str, SampleList> {
    move |i: &str| preceded(tuple((space0, tag(name), space1)), sample_list)(i)
}

fn samples(i: &str)'''))
edit('par2-samples-match', PAR, pa, ('''            if integer.is_some() || decimal.is_some() {
                Some(Samples { integer, decimal })
            } else {
                None
            }''', '''            match (&integer, &decimal) {
                (None, None) => None,
                _ => Some(Samples { integer, decimal }),
            }'''))
edit('par2-trim-once', PAR, pa, ('''    if i.trim().is_empty() {
        return IResult::Ok(("", Condition(vec![])));
    }

    if i.trim().starts_with("@") {
        return IResult::Ok((i.trim_start(), Condition(vec![])));
    }''', '''    let rest = i.trim_start();
    if rest == "" || rest.starts_with('@') {
        return Ok((rest, Condition(Vec::new())));
    }'''))
edit('par2-trim-first', PAR, pa, ('''    if i.trim().is_empty() {
        return IResult::Ok(("", Condition(vec![])));
    }

    if i.trim().starts_with("@") {
        return IResult::Ok((i.trim_start(), Condition(vec![])));
    }''', '''    let rest = i.trim_start();
    match rest.chars().next() {
        None | Some('@') => return Ok((rest, Condition(vec![]))),
        Some(_) => {}
    }'''))
edit('par2-lib-err', PAR, pl, ('''    match parser::parse_rule(source.as_ref()) {
        Ok(("", rule)) => Ok(rule),
        //Ok((_, rule)) => Ok(rule),
        Ok((left, _)) => Err(format!("Left string: {}", left)),
        _ => Err("Parser failed".to_string()),
    }''', '''    let (left, rule) = parser::parse_rule(source.as_ref()).map_err(|_| "Parser failed".to_string())?;
    if left.is_empty() {
        Ok(rule)
    } else {
        Err(format!("Left string: {}", left))
    }'''))
edit('par2-lib-generic', PAR, pl, ('''    match parser::parse_rule(source.as_ref()) {
        Ok(("", rule)) => Ok(rule),
        //Ok((_, rule)) => Ok(rule),
        Ok((left, _)) => Err(format!("Left string: {}", left)),
        _ => Err("Parser failed".to_string()),
    }''', '''    rule_of(source.as_ref())'''), ('''pub fn parse_plural_condition''', '''fn rule_of(text: &str) -> Result<ast::Rule, String> {
    match parser::parse_rule(text) {
        Err(_) => Err(String::from("Parser failed")),
        Ok((left, rule)) => match left.len() {
            0 => Ok(rule),
            _ => Err("Left string: ".to_string() + left),
        },
    }
}

pub fn parse_plural_condition'''))
# ---- generator
gl, gp, gr = G + 'lib.rs', G + 'parser/gen_pr.rs', G + 'parser/gen_rs.rs'
edit('gen2-try', GEN, gl, ('''pub fn generate_rs(cldr_jsons: &[String]) -> String {
    let mut cldr_version = None;''', '''pub fn generate_rs(cldr_jsons: &[String]) -> String {
    match try_generate(cldr_jsons) {
        Ok(code) => code,
        Err(e) => panic!("{}", e),
    }
}

fn try_generate(cldr_jsons: &[String]) -> Result<String, String> {
    let mut cldr_version = None;'''),
     ('''parse_plurals_resource_from_string(cldr_json).unwrap();''', '''parse_plurals_resource_from_string(cldr_json).map_err(|e| e.to_string())?;'''),
     ('''panic!("All input resources must use the same CLDR version!");''', '''return Err("All input resources must use the same CLDR version!".to_string());'''),
     ('''panic!("Cannot provide two inputs with the same data!");''', '''return Err("Cannot provide two inputs with the same data!".to_string());'''),
     ('''panic!("None of the input files provided core data!");''', '''return Err("None of the input files provided core data!".to_string());'''),
     ('''    parser::gen_rs::gen_fn(tokens, &cldr_version.unwrap()).to_string()''', '''    Ok(parser::gen_rs::gen_fn(tokens, &cldr_version.unwrap()).to_string())'''))
edit('gen2-assert', GEN, gl, ('''            if tokens.contains_key("cardinal") {
                panic!("Cannot provide two inputs with the same data!");
            }
            tokens.insert("cardinal".to_owned(), rule_tokens);''', '''            let old = tokens.insert("cardinal".to_owned(), rule_tokens);
            assert!(old.is_none(), "Cannot provide two inputs with the same data!");'''),
     ('''            if tokens.contains_key("ordinal") {
                panic!("Cannot provide two inputs with the same data!");
            }
            tokens.insert("ordinal".to_owned(), rule_tokens);''', '''            let old = tokens.insert(String::from("ordinal"), rule_tokens);
            assert!(old.is_none(), "Cannot provide two inputs with the same data!");'''))
edit('gen2-options', GEN, gl, ('''    let mut tokens = BTreeMap::new();
''', '''    let mut cardinal: Option<Vec<TokenStream>> = None;
    let mut ordinal: Option<Vec<TokenStream>> = None;
'''), ('''            if tokens.contains_key("cardinal") {
                panic!("Cannot provide two inputs with the same data!");
            }
            tokens.insert("cardinal".to_owned(), rule_tokens);''', '''            if cardinal.is_some() {
                panic!("Cannot provide two inputs with the same data!");
            }
            cardinal = Some(rule_tokens);'''),
     ('''            if tokens.contains_key("ordinal") {
                panic!("Cannot provide two inputs with the same data!");
            }
            tokens.insert("ordinal".to_owned(), rule_tokens);''', '''            if ordinal.is_some() {
                panic!("Cannot provide two inputs with the same data!");
            }
            ordinal = Some(rule_tokens);'''),
     ('''    if cldr_version.is_none() || tokens.is_empty() {''', '''    let mut tokens = BTreeMap::new();
    if let Some(t) = cardinal {
        tokens.insert("cardinal".to_owned(), t);
    }
    if let Some(t) = ordinal {
        tokens.insert("ordinal".to_owned(), t);
    }
    if cldr_version.is_none() || tokens.is_empty() {'''))
edit('gen2-locale-fn', GEN, gl, ('''        // this_lang_rules is a vector of plural rules saved as a PluralCategory and a TokenStream
        let mut this_lang_rules = Vec::<(PluralCategory, TokenStream)>::new();

        for (rule_name, rule_line) in r {''', '''        rule_tokens.push(one_locale(&lang, r));
    }
    rule_tokens
}

fn one_locale(lang: &LanguageIdentifier, r: BTreeMap<String, String>) -> TokenStream {
        let mut this_lang_rules = Vec::<(PluralCategory, TokenStream)>::new();

        for (rule_name, rule_line) in r {'''), ('''        // convert language rules to TokenStream and add them to all the rules
        rule_tokens.push(parser::gen_rs::gen_mid(&lang, &this_lang_rules));
    }
    rule_tokens
}''', '''        parser::gen_rs::gen_mid(lang, &this_lang_rules)
}'''))
edit('gen2-cat-continue', GEN, gl, ('''            if cat != PluralCategory::OTHER {
                let tokens = parser::gen_pr::gen_pr(representation);
                this_lang_rules.push((cat, tokens));
            }''', '''            if cat == PluralCategory::OTHER {
                continue;
            }
            this_lang_rules.push((cat, parser::gen_pr::gen_pr(representation)));'''))
edit('gen2-filter-map', GEN, gl, ('''            if key == "root" {
                None
            } else {
                let langid = key
                    .parse()
                    .unwrap_or_else(|_| panic!("Parsing {} failed", key));
                Some((langid, value))
            }''', '''            if key != "root" {
                match key.parse() {
                    Ok(langid) => Some((langid, value)),
                    Err(_) => panic!("Parsing {} failed", key),
                }
            } else {
                None
            }'''))
edit('gen2-filter', GEN, gl, ('''        .filter_map(|(key, value)| {
            if key == "root" {
                None
            } else {
                let langid = key
                    .parse()
                    .unwrap_or_else(|_| panic!("Parsing {} failed", key));
                Some((langid, value))
            }
        })''', '''        .filter(|(key, _)| key != "root")
        .map(|(key, value)| (key.parse().unwrap_or_else(|_| panic!("Parsing {} failed", key)), value))'''))
edit('gen2-symbol', GEN, gp, ('''            // Variants handled here
            let (symbol, rval) = if left.operand == Operand::N {
                if !mod_check {
                    (quote!(po.#l), quote!(#r.0))
                } else {
                    (quote!(po.i % #m), quote!(#r))
                }
            } else {
                (
                    if !mod_check {
                        quote!(po.#l)
                    } else {
                        quote!(po.#l % #m)
                    },
                    quote!(#r),
                )
            };
''', '''            let (symbol, rval) = match (left.operand == Operand::N, mod_check) {
                (true, false) => (quote!(po.#l), quote!(#r.0)),
                (true, true) => (quote!(po.i % #m), quote!(#r)),
                (false, false) => (quote!(po.#l), quote!(#r)),
                (false, true) => (quote!(po.#l % #m), quote!(#r)),
            };
'''))
edit('gen2-mod-opt', GEN, gp, ('''    let (mod_check, m) = if left.modulus != None {
        (true, convert_literal((left.modulus.unwrap().0).0))
    } else {
        (false, convert_literal(0))
    };''', '''    let modulus = left.modulus.map(|m| (m.0).0);
    let mod_check = modulus.is_some();
    let m = convert_literal(modulus.unwrap_or(0));'''))
edit('gen2-kind', GEN, gp, ('''    // Unfold all expressions from folded expressions
    match operator {
        Operator::In | Operator::Is | Operator::EQ => {
            if relations.len() > 1 {
                quote! { ( #(#relations)||* ) }
            } else {
                quote! { #(#relations)||* }
            }
        }
        Operator::NotIn | Operator::NotEQ | Operator::IsNot => quote! { #(#relations)&&* },
        Operator::Within | Operator::NotWithin => quote! { #(#relations)||* },
    }''', '''    unfold(&operator, &relations)'''), ('''// Unfold AndConditions and tokenize together with &&
fn create_and''', '''/// All alternatives of a relation as one expression
fn unfold(operator: &Operator, relations: &[TokenStream]) -> TokenStream {
    let negated = matches!(operator, Operator::NotIn | Operator::NotEQ | Operator::IsNot);
    if negated {
        return quote! { #(#relations)&&* };
    }
    let list = matches!(operator, Operator::In | Operator::Is | Operator::EQ);
    if list && relations.len() > 1 {
        quote! { ( #(#relations)||* ) }
    } else {
        quote! { #(#relations)||* }
    }
}

// Unfold AndConditions and tokenize together with &&
fn create_and'''))
edit('gen2-langid-map', GEN, gr, ('''    let script = if let Some(script) = script {
        quote!(Some(subtags::Script::from_raw_unchecked(#script)))
    } else {
        quote!(None)
    };''', '''    let script = script
        .map(|script| quote!(Some(subtags::Script::from_raw_unchecked(#script))))
        .unwrap_or_else(|| quote!(None));'''), ('''    let region = if let Some(region) = region {
        quote!(Some(subtags::Region::from_raw_unchecked(#region)))
    } else {
        quote!(None)
    };''', '''    let region = region.map_or_else(|| quote!(None), |region| quote!(Some(subtags::Region::from_raw_unchecked(#region))));'''))
edit('gen2-mid-if', GEN, gr, ('''    let queued = iter.next();
    let rule_tokens = match queued {
        Some(pair) => {''', '''    let rule_tokens = match iter.next() {
        Some(pair) => {'''), ('''            tokens = quote! { #tokens else { PluralCategory::OTHER } };
            tokens
        }''', '''            quote! { #tokens else { PluralCategory::OTHER } }
        }'''))
edit('gen2-type-direct', GEN, gr, ('''    let mut tokens = Vec::<TokenStream>::new();

    let match_name''', '''    let match_name'''), ('''    for func in &streams {
        tokens.push(func.clone());
    }
    quote! { pub const #match_name: &[(LanguageIdentifier, PluralRule)] = &[ #(#tokens),* ]; }''', '''    quote! { pub const #match_name: &[(LanguageIdentifier, PluralRule)] = &[ #(#streams),* ]; }'''))
edit('gen2-return-ident', GEN, gr, ('''    match cat {
        PluralCategory::ZERO => quote! {if #exp { PluralCategory::ZERO } },
        PluralCategory::ONE => quote! {if #exp { PluralCategory::ONE } },
        PluralCategory::TWO => quote! {if #exp { PluralCategory::TWO } },
        PluralCategory::FEW => quote! {if #exp { PluralCategory::FEW } },
        PluralCategory::MANY => quote! {if #exp { PluralCategory::MANY } },
        PluralCategory::OTHER => quote! { { PluralCategory::OTHER } },
    }''', '''    let name = match cat {
        PluralCategory::ZERO => quote!(ZERO),
        PluralCategory::ONE => quote!(ONE),
        PluralCategory::TWO => quote!(TWO),
        PluralCategory::FEW => quote!(FEW),
        PluralCategory::MANY => quote!(MANY),
        PluralCategory::OTHER => return quote! { { PluralCategory::OTHER } },
    };
    quote! { if #exp { PluralCategory::#name } }'''))
# ---- tool
tm = G + 'main.rs'
READ = '''    let input_jsons = input_paths
        .iter()
        .map(|path| fs::read_to_string(path).expect("file not found"))
        .collect::<Vec<_>>();'''
edit('tool2-loop-q', ['C17'], tm, (READ, '''    let mut input_jsons = Vec::with_capacity(input_paths.len());
    for path in &input_paths {
        let json = fs::read_to_string(path)?;
        input_jsons.push(json);
    }'''))
edit('tool2-read-fn', ['C17'], tm, (READ, '''    let input_jsons = read_all(&input_paths)?;'''), ('''fn main()''', '''fn read_all(paths: &[&str]) -> std::io::Result<Vec<String>> {
    let mut jsons = Vec::new();
    for path in paths {
        jsons.push(fs::read_to_string(path)?);
    }
    Ok(jsons)
}

fn main()'''))
edit('tool2-collect-result', ['C17'], tm, (READ, '''    let input_jsons: Vec<String> = input_paths
        .iter()
        .map(fs::read_to_string)
        .collect::<Result<_, _>>()?;'''))
edit('tool2-match-return', ['C17'], tm, (READ, '''    let mut input_jsons = vec![];
    for path in input_paths.iter() {
        match fs::read_to_string(path) {
            Ok(json) => input_jsons.push(json),
            Err(e) => {
                eprintln!("{}: {}", path, e);
                return Err(e);
            }
        }
    }'''))
edit('tool2-exit', ['C17'], tm, (READ, '''    let mut input_jsons = vec![];
    for path in input_paths.iter() {
        let json = fs::read_to_string(path).unwrap_or_else(|e| {
            eprintln!("{}: {}", path, e);
            std::process::exit(1)
        });
        input_jsons.push(json);
    }'''))
edit('tool2-fmt-fn', ['C17'], tm, ('''        Command::new("rustfmt")
            .args(&[output_path])
            .output()
            .expect("Failed to format the output using `rustfmt`");''', '''        format(output_path)?;'''), ('''fn main()''', '''fn format(path: &str) -> std::io::Result<()> {
    Command::new("rustfmt").arg(path).output()?;
    Ok(())
}

fn main()'''))
edit('tool2-emit-fn', ['C17'], tm, ('''    let mut file = fs::File::create(output_path)?;
    file.write_all(complete_rs_code.as_bytes())?;
''', '''    emit(output_path, &complete_rs_code)?;
'''), ('''fn main()''', '''fn emit(path: &str, code: &str) -> std::io::Result<()> {
    let mut file = fs::File::create(path)?;
    file.write_all(code.as_bytes())
}

fn main()'''))
edit('tool3-spawn-wait', ['C17'], G + 'main.rs', ("""        Command::new("rustfmt")
            .args(&[output_path])
            .output()
            .expect("Failed to format the output using `rustfmt`");""", """        let mut child = Command::new("rustfmt")
            .arg(output_path)
            .spawn()
            .expect("Failed to format the output using `rustfmt`");
        child
            .wait()
            .expect("Failed to format the output using `rustfmt`");"""))
# ---- third batch
BT = "let backtrace = dec_str.trim_end_matches('0');"
edit('op3-rfind', OPS, op, (BT, "let used = dec_str.rfind(|c| c != '0').map_or(0, |k| k + 1);\n            let backtrace = &dec_str[..used];"))
edit('op3-rposition', OPS, op, (BT, "let used = dec_str.bytes().rposition(|b| b != b'0').map_or(0, |k| k + 1);\n            let backtrace = &dec_str[..used];"))
edit('op3-enumerate', OPS, op, (BT, "let mut used = 0;\n            for (k, b) in dec_str.bytes().enumerate() {\n                if b != b'0' {\n                    used = k + 1;\n                }\n            }\n            let backtrace = &dec_str[..used];"))
edit('op3-find-match', OPS, op, ("if let Some(dec_pos) = abs_str.find('.') {", "let dec_pos = abs_str.find('.');\n        if dec_pos.is_some() {\n            let dec_pos = dec_pos.unwrap();"))
edit('op3-char-indices', OPS, op, ("if let Some(dec_pos) = abs_str.find('.') {", "if let Some((dec_pos, _)) = abs_str.char_indices().find(|(_, c)| *c == '.') {"))
edit('op3-split-at', OPS, op, ('''            let int_str = &abs_str[..dec_pos];
            let dec_str = &abs_str[(dec_pos + 1)..];''', '''            let (int_str, rest) = abs_str.split_at(dec_pos);
            let dec_str = &rest[1..];'''))
edit('op3-w-sub', OPS, op, ("num_fraction_digits = backtrace.len() as usize;", "let zeros = dec_str.len() - backtrace.len();\n            num_fraction_digits = dec_str.len() - zeros;"))
edit('op3-dot-first', OPS, op, ("if let Some(dec_pos) = abs_str.find('.') {", "if abs_str.contains('.') {\n            let dec_pos = abs_str.find('.').unwrap_or(0);"))
edit('op3-not-neg', OPS, op, ('''        if absolute_value.is_sign_negative() {
            return Err("Incorrect number passed!");
        }''', '''        if !absolute_value.is_sign_positive() {
            return Err("Incorrect number passed!");
        }'''))
edit('op3-abs-loop', OPS, op, ('''                let x = (input as isize).checked_abs().ok_or("Number too big")?;''', '''                let x = match (input as isize).checked_abs() {
                    Some(x) => x,
                    None => return Err("Number too big"),
                };'''))
edit('lib3-get', LIB, li, ('idx.map(|idx| rules::PRS_CARDINAL[idx].1)', 'idx.map(|idx| { let (_, rule) = &rules::PRS_CARDINAL[idx]; *rule })'))
edit('lib3-partition', LIB, li, ('''                let idx = rules::PRS_CARDINAL.binary_search_by_key(&&langid, |(l, _)| l);
                idx.map(|idx| rules::PRS_CARDINAL[idx].1)''', '''                let at = rules::PRS_CARDINAL.partition_point(|(l, _)| *l < langid);
                match rules::PRS_CARDINAL.get(at) {
                    Some((l, f)) if *l == langid => Ok(*f),
                    _ => Err(at),
                }'''))
edit('lib3-entry', LIB, li, ('''        prs.iter().map(|(l, _)| l.clone()).collect()''', '''        let mut locales = Vec::with_capacity(prs.len());
        for entry in prs {
            locales.push(entry.0.clone());
        }
        locales'''))
SN = 'separated_nonempty_list'
edit('par3-many0', PAR, P + 'parser.rs', ('''    map(
        separated_nonempty_list(tuple((space1, tag("and"), space1)), relation),
        AndCondition,
    )(i)''', '''    let (i, first) = relation(i)?;
    let (i, others) = nom::multi::many0(preceded(tuple((space1, tag("and"), space1)), relation))(i)?;
    let mut relations = vec![first];
    relations.extend(others);
    Ok((i, AndCondition(relations)))'''))
edit('par3-generic-list', PAR, P + 'parser.rs', ('''fn range_list(i: &str) -> IResult<&str, RangeList> {
    map(
        separated_nonempty_list(tuple((space0, tag(","), space0)), range_list_item),
        RangeList,
    )(i)
}''', '''fn comma(i: &str) -> IResult<&str, ()> {
    let (i, _) = space0(i)?;
    let (i, _) = tag(",")(i)?;
    let (i, _) = space0(i)?;
    Ok((i, ()))
}

fn range_list(i: &str) -> IResult<&str, RangeList> {
    let (rest, items) = separated_nonempty_list(comma, range_list_item)(i)?;
    Ok((rest, RangeList(items)))
}'''))
edit('par3-value-match', PAR, P + 'parser.rs', ('''    map_res(digit1, |s: &str| s.parse::<usize>().map(Value))(i)''', '''    let parsed = map_res(digit1, str::parse::<usize>)(i);
    match parsed {
        Ok((rest, number)) => Ok((rest, Value(number))),
        Err(e) => Err(e),
    }'''))
edit('par3-mod-fn', PAR, P + 'parser.rs', ('''    opt(map(
        preceded(tuple((space0, alt((tag("mod"), tag("%"))), space1)), value),
        Modulo,
    ))(i)''', '''    fn sign(i: &str) -> IResult<&str, &str> {
        alt((tag("%"), tag("mod")))(i)
    }
    let modulus = preceded(space0, preceded(sign, preceded(space1, value)));
    opt(map(modulus, |v| Modulo(v)))(i)'''))
edit('par3-samples-opt', PAR, P + 'parser.rs', ('''            if integer.is_some() || decimal.is_some() {
                Some(Samples { integer, decimal })
            } else {
                None
            }''', '''            match (&integer, &decimal) {
                (None, None) => None,
                _ => Some(Samples { integer, decimal }),
            }'''))
edit('par3-not-in', PAR, P + 'parser.rs', ('''            |(_, _, v)| v,
        ),
        map(tag("within"), |_| Operator::Within),''', '''            |(_, _, op)| op,
        ),
        nom::combinator::value(Operator::Within, tag("within")),'''))
edit('gen3-entry', GEN, G + 'lib.rs', ('''            let rule_tokens = gen_type_rs(data);
            if tokens.contains_key("cardinal") {
                panic!("Cannot provide two inputs with the same data!");
            }
            tokens.insert("cardinal".to_owned(), rule_tokens);''', '''            match tokens.entry("cardinal".to_owned()) {
                std::collections::btree_map::Entry::Vacant(slot) => {
                    slot.insert(gen_type_rs(data));
                }
                std::collections::btree_map::Entry::Occupied(_) => {
                    panic!("Cannot provide two inputs with the same data!")
                }
            }'''))
edit('gen3-version-match', GEN, G + 'lib.rs', ('''        if cldr_version.is_none() {
            cldr_version = Some(res_cldr_version);
        } else if cldr_version != Some(res_cldr_version) {
            panic!("All input resources must use the same CLDR version!");
        }''', '''        match &cldr_version {
            None => cldr_version = Some(res_cldr_version),
            Some(version) if *version == res_cldr_version => {}
            Some(_) => panic!("All input resources must use the same CLDR version!"),
        }'''))
edit('gen3-pairs', GEN, G + 'lib.rs', ('''        if let Some(data) = resource_items.supplemental.plurals_type_cardinal {
            let rule_tokens = gen_type_rs(data);
            if tokens.contains_key("cardinal") {
                panic!("Cannot provide two inputs with the same data!");
            }
            tokens.insert("cardinal".to_owned(), rule_tokens);
        }

        if let Some(data) = resource_items.supplemental.plurals_type_ordinal {
            let rule_tokens = gen_type_rs(data);
            if tokens.contains_key("ordinal") {
                panic!("Cannot provide two inputs with the same data!");
            }
            tokens.insert("ordinal".to_owned(), rule_tokens);
        }''', '''        let types = vec![
            ("cardinal", resource_items.supplemental.plurals_type_cardinal),
            ("ordinal", resource_items.supplemental.plurals_type_ordinal),
        ];
        for (name, data) in types {
            if let Some(data) = data {
                let rule_tokens = gen_type_rs(data);
                if tokens.contains_key(name) {
                    panic!("Cannot provide two inputs with the same data!");
                }
                tokens.insert(name.to_owned(), rule_tokens);
            }
        }'''))
edit('gen3-arms', GEN, G + 'parser/gen_rs.rs', ('''    // make pluralrule_set iterable
    let mut iter = pluralrule_set.iter();

    let queued = iter.next();
    let rule_tokens = match queued {
        Some(pair) => {
            // instantiate tokenstream for folded match rules
            let mut tokens = create_return(pair.0, &pair.1);

            // add all tokens to token stream, separated by commas
            for pair in iter {
                let condition = create_return(pair.0, &pair.1);
                tokens = quote! { #tokens else #condition };
            }
            tokens = quote! { #tokens else { PluralCategory::OTHER } };
            tokens
        }
        None => quote! { { PluralCategory::OTHER }  },
    };''', '''    let arms: Vec<TokenStream> = pluralrule_set
        .iter()
        .map(|(cat, exp)| create_return(*cat, exp))
        .collect();
    let rule_tokens = quote! { #(#arms else)* { PluralCategory::OTHER } };'''))
edit('gen3-split-first', GEN, G + 'parser/gen_rs.rs', ('''    // make pluralrule_set iterable
    let mut iter = pluralrule_set.iter();

    let queued = iter.next();
    let rule_tokens = match queued {
        Some(pair) => {''', '''    let rule_tokens = match pluralrule_set.split_first() {
        Some((pair, iter)) => {'''))
edit('gen3-rules-map', GEN, G + 'lib.rs', ('''    for (lang, r) in rules {
        // this_lang_rules''', '''    for entry in rules {
        let (lang, r) = entry;
        // this_lang_rules'''))
edit('gen3-cat-fn', GEN, G + 'lib.rs', ('''            let cat = if cat_name == "zero" {
                PluralCategory::ZERO
            } else if cat_name == "one" {
                PluralCategory::ONE
            } else if cat_name == "two" {
                PluralCategory::TWO
            } else if cat_name == "few" {
                PluralCategory::FEW
            } else if cat_name == "many" {
                PluralCategory::MANY
            } else {
                PluralCategory::OTHER
            };''', '''            let cat = category(cat_name);'''), ('''fn gen_type_rs(''', '''/// The category with a name of the source file
fn category(name: &str) -> PluralCategory {
    let known = [
        ("zero", PluralCategory::ZERO),
        ("one", PluralCategory::ONE),
        ("two", PluralCategory::TWO),
        ("few", PluralCategory::FEW),
        ("many", PluralCategory::MANY),
    ];
    for (n, cat) in known.iter() {
        if *n == name {
            return *cat;
        }
    }
    PluralCategory::OTHER
}

fn gen_type_rs('''))
edit('gen3-other-early', GEN, G + 'lib.rs', ('''            let cat_name = rule_name.split('-').collect::<Vec<_>>()[2];
''', '''            let parts: Vec<&str> = rule_name.split('-').collect();
            let cat_name = parts[2];
'''))
edit('gen3-rel-vec', GEN, G + 'parser/gen_pr.rs', ('''    let mut andcondvec = Vec::<TokenStream>::new();

    // unpack the AndCondition and get all relations from within it
    for a in acond.0 {
        andcondvec.push(create_relation(a));
    }

    // Unfold AndConditions and tokenize together with &&
    quote! { ( #(#andcondvec)&&* ) }''', '''    let relations = acond.0.into_iter().map(create_relation);
    quote! { ( #(#relations)&&* ) }'''))
edit('gen3-lit-from', GEN, G + 'parser/gen_pr.rs', ('''    let u = convert_literal(up);
    let d = convert_literal(low);

    (d, u)''', '''    (convert_literal(low), convert_literal(up))'''))
edit('gen3-letter', GEN, G + 'parser/gen_pr.rs', ('''    let l = Ident::new(l, Span::call_site());''', '''    let l: TokenStream = l.parse().unwrap();'''))
edit('tool3-if-err', ['C17'], G + 'main.rs', ('''        Command::new("rustfmt")
            .args(&[output_path])
            .output()
            .expect("Failed to format the output using `rustfmt`");''', '''        let formatting = Command::new("rustfmt").arg(output_path).output();
        if let Err(error) = formatting {
            panic!("Failed to format the output using `rustfmt`: {}", error);
        }'''))
edit('tool3-open-read', ['C17'], G + 'main.rs', ('''        .map(|path| fs::read_to_string(path).expect("file not found"))''', '''        .map(|path| {
            let mut text = String::new();
            let mut source = fs::File::open(path).expect("file not found");
            std::io::Read::read_to_string(&mut source, &mut text).expect("file not found");
            text
        })'''))
edit('tool3-bytes', ['C17'], G + 'main.rs', ('''        .map(|path| fs::read_to_string(path).expect("file not found"))''', '''        .map(|path| String::from_utf8(fs::read(path).expect("file not found")).expect("not UTF-8"))'''))
edit('tool3-ugly-return', ['C17'], G + 'main.rs', ('''    if !matches.is_present("ugly") {
''', '''    if matches.is_present("ugly") {
        return Ok(());
    }
    {
'''))
edit('tool3-drop', ['C17'], G + 'main.rs', ('''    file.write_all(complete_rs_code.as_bytes())?;
''', '''    file.write_all(complete_rs_code.as_bytes())?;
    file.flush()?;
    drop(file);
'''))

# ---- fourth batch
edit('op4-struct', OPS, op, ('''        if let Some(dec_pos) = abs_str.find('.') {
            let int_str = &abs_str[..dec_pos];
            let dec_str = &abs_str[(dec_pos + 1)..];
''', '''        let parts = Parts::of(abs_str);
        if let Some(dec_str) = parts.fraction {
            let int_str = parts.integer;
'''), ('''macro_rules! impl_integer_type {''', '''/// The sides of the decimal point
struct Parts<'a> {
    integer: &'a str,
    fraction: Option<&'a str>,
}

impl<'a> Parts<'a> {
    fn of(text: &'a str) -> Self {
        match text.find('.') {
            Some(at) => Parts {
                integer: &text[..at],
                fraction: Some(&text[at + 1..]),
            },
            None => Parts {
                integer: text,
                fraction: None,
            },
        }
    }
}

macro_rules! impl_integer_type {'''))
edit('op4-default', OPS, op, ('''    ($ty:ident) => {
        impl From<$ty> for PluralOperands {
            fn from(input: $ty) -> Self {
                // XXXManishearth converting from u32 or u64 to isize may wrap
                PluralOperands {
                    n: input as f64,
                    i: input as u64,
                    v: 0,
                    w: 0,
                    f: 0,
                    t: 0,
                }
            }''', '''    ($ty:ident) => {
        impl From<$ty> for PluralOperands {
            fn from(input: $ty) -> Self {
                let mut operands = PluralOperands {
                    n: 0.0,
                    i: 0,
                    v: 0,
                    w: 0,
                    f: 0,
                    t: 0,
                };
                operands.i = input.into_u64();
                operands.n = input as f64;
                operands
            }'''), ('''macro_rules! impl_integer_type {''', '''trait IntoU64 {
    fn into_u64(self) -> u64;
}

macro_rules! into_u64 {
    ($($ty:ident)+) => {
        $(impl IntoU64 for $ty {
            #[inline]
            fn into_u64(self) -> u64 {
                self as u64
            }
        })+
    };
}

into_u64!(u8 u16 u32 u64 usize);

macro_rules! impl_integer_type {'''))
edit('op4-closure', OPS, op, ('''        let integer_digits;
''', '''        let parse = |text: &str| u64::from_str(text).map_err(|_| "Could not convert string to integer!");
        let integer_digits;
'''), ('''            integer_digits =
                u64::from_str(&int_str).map_err(|_| "Could not convert string to integer!")?;''', '''            integer_digits = parse(int_str)?;'''),
     ('''            fraction_digits0 =
                u64::from_str(dec_str).map_err(|_| "Could not convert string to integer!")?;''', '''            fraction_digits0 = parse(dec_str)?;'''))
edit('op4-rev-count', OPS, op, ('''            let backtrace = dec_str.trim_end_matches('0');
''', '''            let zeros = dec_str.bytes().rev().take_while(|b| *b == b'0').count();
            let backtrace = &dec_str[..dec_str.len() - zeros];
'''))
edit('op4-all-zeros', OPS, op, ('''            fraction_digits = u64::from_str(backtrace).unwrap_or(0);''', '''            fraction_digits = if dec_str.chars().all(|c| c == '0') {
                0
            } else {
                u64::from_str(backtrace).unwrap_or(0)
            };'''))
edit('op4-from-f64', OPS, op, ('''impl_convert_type!(f32 f64 String);''', '''impl_convert_type!(f32 f64);

impl TryFrom<String> for PluralOperands {
    type Error = &'static str;
    fn try_from(input: String) -> Result<Self, Self::Error> {
        (&input[..]).try_into()
    }
}'''), ('''use std::convert::TryFrom;''', '''use std::convert::{TryFrom, TryInto};'''))
edit('op4-display', OPS, op, ('''                let as_str: &str = &input.to_string();
                PluralOperands::try_from(as_str)''', '''                use std::fmt::Write;
                let mut text = String::new();
                write!(text, "{}", input).map_err(|_| "Incorrect number passed!")?;
                PluralOperands::try_from(text.as_str())'''))
edit('op4-signum', OPS, op, ('''                let x = (input as isize).checked_abs().ok_or("Number too big")?;''', '''                let wide = input as isize;
                if wide == isize::min_value() {
                    return Err("Number too big");
                }
                let x = if wide.is_negative() { 0 - wide } else { wide };'''))
edit('op4-overflow', OPS, op, ('''                let x = (input as isize).checked_abs().ok_or("Number too big")?;''', '''                let x = match (input as isize).overflowing_abs() {
                    (x, false) => x,
                    (_, true) => return Err("Number too big"),
                };'''))
edit('lib4-q', LIB, li, ('''        let ops = number.try_into();
        let pr = self.function;
        match ops {
            Ok(ops) => Ok(pr(&ops)),
            Err(_) => Err("Argument can not be parsed to operands."),
        }''', '''        let ops: PluralOperands = match number.try_into() {
            Err(_) => return Err("Argument can not be parsed to operands."),
            Ok(ops) => ops,
        };
        Ok(self.category(&ops))'''), ('''    /// Returns a list of the available locales.''', '''    #[inline]
    fn category(&self, ops: &PluralOperands) -> PluralCategory {
        (self.function)(ops)
    }

    /// Returns a list of the available locales.'''))
edit('lib4-okor', LIB, li, ('''        let returned_rule = match prt {
            PluralRuleType::CARDINAL => {
                let idx = rules::PRS_CARDINAL.binary_search_by_key(&&langid, |(l, _)| l);
                idx.map(|idx| rules::PRS_CARDINAL[idx].1)
            }
            PluralRuleType::ORDINAL => {
                let idx = rules::PRS_ORDINAL.binary_search_by_key(&&langid, |(l, _)| l);
                idx.map(|idx| rules::PRS_ORDINAL[idx].1)
            }
        };
        match returned_rule {
            Ok(returned_rule) => Ok(Self {
                locale: langid,
                function: returned_rule,
            }),
            Err(_) => Err("unknown locale"),
        }''', '''        let table = Self::table(prt);
        let idx = table
            .binary_search_by(|entry| entry.0.cmp(&langid))
            .map_err(|_| "unknown locale")?;
        let (_, function) = table[idx];
        Ok(Self {
            locale: langid,
            function,
        })'''), ('''        let prs = match prt {
            PluralRuleType::CARDINAL => rules::PRS_CARDINAL,
            PluralRuleType::ORDINAL => rules::PRS_ORDINAL,
        };
        prs.iter()''', '''        Self::table(prt).iter()'''), ('''    /// Returns the locale name''', '''    fn table(prt: PluralRuleType) -> &'static [(LanguageIdentifier, PluralRule)] {
        match prt {
            PluralRuleType::CARDINAL => rules::PRS_CARDINAL,
            PluralRuleType::ORDINAL => rules::PRS_ORDINAL,
        }
    }

    /// Returns the locale name'''))
edit('lib4-entry-ref', LIB, li, ('''    locale: LanguageIdentifier,
    function: PluralRule,
}''', '''    function: PluralRule,
    locale: LanguageIdentifier,
}'''), ('''        match returned_rule {
            Ok(returned_rule) => Ok(Self {
                locale: langid,
                function: returned_rule,
            }),
            Err(_) => Err("unknown locale"),
        }''', '''        returned_rule
            .map(|function| Self {
                function,
                locale: langid,
            })
            .or(Err("unknown locale"))'''))
edit('lib4-impl-clone', LIB, li, ('''#[derive(Clone)]
pub struct PluralRules {''', '''pub struct PluralRules {'''), ('''impl PluralRules {
''', '''impl Clone for PluralRules {
    fn clone(&self) -> Self {
        PluralRules {
            locale: self.locale.clone(),
            function: self.function,
        }
    }
}

impl PluralRules {
'''))
edit('par4-at', PAR, P + 'lib.rs', ('''    match parser::parse_condition(source.as_ref()) {
        Ok((_, rule)) => Ok(rule),
        _ => Err("Parser failed".to_string()),
    }''', '''    parser::parse_condition(source.as_ref())
        .map(|(_, condition)| condition)
        .map_err(|_| String::from("Parser failed"))'''))
edit('par4-rule-if', PAR, P + 'lib.rs', ('''    match parser::parse_rule(source.as_ref()) {
        Ok(("", rule)) => Ok(rule),
        //Ok((_, rule)) => Ok(rule),
        Ok((left, _)) => Err(format!("Left string: {}", left)),
        _ => Err("Parser failed".to_string()),
    }''', '''    let (left, rule) = match parser::parse_rule(source.as_ref()) {
        Ok(parsed) => parsed,
        Err(_) => return Err("Parser failed".to_string()),
    };
    if !left.is_empty() {
        return Err(["Left string: ", left].concat());
    }
    Ok(rule)'''))
edit('par4-recursive-or', PAR, P + 'parser.rs', ('''        separated_nonempty_list(tuple((space1, tag("or"), space1)), and_condition),
        Condition,''', '''        separated_nonempty_list(tuple((space1, tag("or"), space1)), and_condition),
        |alternatives| Condition(alternatives),'''))
edit('par4-keyword', PAR, P + 'parser.rs', ('''separated_nonempty_list(tuple((space1, tag("and"), space1)), relation)''', '''separated_nonempty_list(keyword("and"), relation)'''),
     ('''separated_nonempty_list(tuple((space1, tag("or"), space1)), and_condition)''', '''separated_nonempty_list(keyword("or"), and_condition)'''),
     ('''fn value(i: &str)''', '''/// A word with blanks on both sides
fn keyword<'a>(word: &'static str) -> impl Fn(&'a str) -> IResult<&'a str, (&'a str, &'a str, &'a str)> {
    tuple((space1, tag(word), space1))
}

fn value(i: &str)'''))
edit('par4-digits', PAR, P + 'parser.rs', ('''    map_res(digit1, |s: &str| s.parse::<usize>().map(Value))(i)''', '''    let (rest, digits) = digit1(i)?;
    match digits.parse() {
        Ok(number) => Ok((rest, Value(number))),
        Err(_) => Err(nom::Err::Error((i, nom::error::ErrorKind::MapRes))),
    }'''))
edit('par4-operator-q', PAR, P + 'parser.rs', ('''        map(tuple((tag("is"), space1, opt(tag("not")))), |(_, _, n)| {
            if n.is_some() {
                Operator::IsNot
            } else {
                Operator::Is
            }
        }),''', '''        map(tuple((tag("is"), space1, opt(tag("not")))), |(_, _, n)| match n {
            Some(_) => Operator::IsNot,
            None => Operator::Is,
        }),'''))
edit('par4-samples-map', PAR, P + 'parser.rs', ('''        |(integer, decimal)| {
            if integer.is_some() || decimal.is_some() {
                Some(Samples { integer, decimal })
            } else {
                None
            }
        },''', '''        |lists| match lists {
            (None, None) => None,
            (integer, decimal) => Some(Samples { integer, decimal }),
        },'''))
edit('gen4-operand-fn', GEN, G + 'parser/gen_pr.rs', ('''    let l = match left.operand {
        Operand::N => "n",
        Operand::I => "i",
        Operand::V => "v",
        Operand::T => "t",
        Operand::W => "w",
        Operand::F => "f",
    };
    let l = Ident::new(l, Span::call_site());''', '''    let l = match left.operand {
        Operand::N => quote!(n),
        Operand::I => quote!(i),
        Operand::V => quote!(v),
        Operand::T => quote!(t),
        Operand::W => quote!(w),
        Operand::F => quote!(f),
    };'''), ('''use proc_macro2::{Ident, Literal, Span, TokenStream};''', '''use proc_macro2::{Literal, TokenStream};'''))
edit('gen4-modulus', GEN, G + 'parser/gen_pr.rs', ('''    let (mod_check, m) = if left.modulus != None {
        (true, convert_literal((left.modulus.unwrap().0).0))
    } else {
        (false, convert_literal(0))
    };''', '''    let mod_check = left.modulus.is_some();
    let m = convert_literal(left.modulus.as_ref().map_or(0, |m| (m.0).0));'''))
edit('gen4-join-fn', GEN, G + 'parser/gen_pr.rs', ('''        Operator::NotIn | Operator::NotEQ | Operator::IsNot => quote! { #(#relations)&&* },
        Operator::Within | Operator::NotWithin => quote! { #(#relations)||* },''', '''        Operator::NotIn | Operator::NotEQ | Operator::IsNot => all(relations),
        Operator::Within | Operator::NotWithin => quote! { #(#relations)||* },'''), ('''// Unfold AndConditions and tokenize together with &&
fn create_and''', '''/// All of the relations
fn all(relations: Vec<TokenStream>) -> TokenStream {
    quote! { #(#relations)&&* }
}

// Unfold AndConditions and tokenize together with &&
fn create_and'''))
edit('gen4-category', GEN, G + 'lib.rs', ('''            let cat = if cat_name == "zero" {
                PluralCategory::ZERO
            } else if cat_name == "one" {
                PluralCategory::ONE
            } else if cat_name == "two" {
                PluralCategory::TWO
            } else if cat_name == "few" {
                PluralCategory::FEW
            } else if cat_name == "many" {
                PluralCategory::MANY
            } else {
                PluralCategory::OTHER
            };''', '''            let cat = PluralCategory::from_name(cat_name).unwrap_or(PluralCategory::OTHER);'''),
     (G + 'parser/plural_category.rs', None, '''
impl PluralCategory {
    /// The category with that name, `OTHER` aside
    pub fn from_name(name: &str) -> Option<Self> {
        match name {
            "zero" => Some(PluralCategory::ZERO),
            "one" => Some(PluralCategory::ONE),
            "two" => Some(PluralCategory::TWO),
            "few" => Some(PluralCategory::FEW),
            "many" => Some(PluralCategory::MANY),
            _ => None,
        }
    }
}
'''))
edit('gen4-create-return', GEN, G + 'parser/gen_rs.rs', ('''        PluralCategory::ZERO => quote! {if #exp { PluralCategory::ZERO } },
        PluralCategory::ONE => quote! {if #exp { PluralCategory::ONE } },
        PluralCategory::TWO => quote! {if #exp { PluralCategory::TWO } },
        PluralCategory::FEW => quote! {if #exp { PluralCategory::FEW } },
        PluralCategory::MANY => quote! {if #exp { PluralCategory::MANY } },
        PluralCategory::OTHER => quote! { { PluralCategory::OTHER } },
    }''', '''        PluralCategory::OTHER => quote! { { PluralCategory::OTHER } },
        cat => {
            let name = proc_macro2::Ident::new(&format!("{:?}", cat), proc_macro2::Span::call_site());
            quote! {if #exp { PluralCategory::#name } }
        }
    }'''))
edit('gen4-subtag', GEN, G + 'parser/gen_rs.rs', ('''    let script = if let Some(script) = script {
        quote!(Some(subtags::Script::from_raw_unchecked(#script)))
    } else {
        quote!(None)
    };
    let region = if let Some(region) = region {
        quote!(Some(subtags::Region::from_raw_unchecked(#region)))
    } else {
        quote!(None)
    };''', '''    let script = script.map_or_else(
        || quote!(None),
        |script| quote!(Some(subtags::Script::from_raw_unchecked(#script))),
    );
    let region = region
        .map(|region| quote!(Some(subtags::Region::from_raw_unchecked(#region))))
        .unwrap_or_else(|| quote!(None));'''))
edit('gen4-pairs', GEN, G + 'lib.rs', ('''        if let Some(data) = resource_items.supplemental.plurals_type_cardinal {
            let rule_tokens = gen_type_rs(data);
            if tokens.contains_key("cardinal") {
                panic!("Cannot provide two inputs with the same data!");
            }
            tokens.insert("cardinal".to_owned(), rule_tokens);
        }

        if let Some(data) = resource_items.supplemental.plurals_type_ordinal {
            let rule_tokens = gen_type_rs(data);
            if tokens.contains_key("ordinal") {
                panic!("Cannot provide two inputs with the same data!");
            }
            tokens.insert("ordinal".to_owned(), rule_tokens);
        }''', '''        add_type(&mut tokens, "cardinal", resource_items.supplemental.plurals_type_cardinal);
        add_type(&mut tokens, "ordinal", resource_items.supplemental.plurals_type_ordinal);'''), ('''fn gen_type_rs(rules''', '''type Rules = BTreeMap<String, BTreeMap<String, String>>;

fn add_type(tokens: &mut BTreeMap<String, Vec<TokenStream>>, name: &str, data: Option<Rules>) {
    let data = match data {
        Some(data) => data,
        None => return,
    };
    let previous = tokens.insert(name.to_owned(), gen_type_rs(data));
    if previous.is_some() {
        panic!("Cannot provide two inputs with the same data!");
    }
}

fn gen_type_rs(rules'''))
edit('gen4-version-match', GEN, G + 'lib.rs', ('''        if cldr_version.is_none() {
            cldr_version = Some(res_cldr_version);
        } else if cldr_version != Some(res_cldr_version) {
            panic!("All input resources must use the same CLDR version!");
        }''', '''        let seen = cldr_version.get_or_insert_with(|| res_cldr_version.clone());
        if *seen != res_cldr_version {
            panic!("All input resources must use the same CLDR version!");
        }'''))
edit('gen4-sort-vec', GEN, G + 'lib.rs', ('''    rules.sort_unstable_by(|(langid1, _), (langid2, _)| langid1.cmp(langid2));

    for (lang, r) in rules {''', '''    rules.sort_by(|a, b| a.0.cmp(&b.0));

    for entry in rules {
        let (lang, r) = entry;'''))
edit('gen4-resource', GEN, G + 'parser/resource.rs', ('''    let u = serde_json::from_str(body)?;
    Ok(u)''', '''    serde_json::from_str(body).map_err(|error| Box::new(error) as Box<dyn Error>)'''))
edit('gen4-streams', GEN, G + 'parser/gen_rs.rs', ('''    let mut tokens = Vec::<TokenStream>::new();
    for (pr_type, stream) in streams {
        tokens.push(create_pr_type(&pr_type, stream));
    }
    let prs = quote! { #(#tokens)* };
    quote! { #head #prs }''', '''    let prs: TokenStream = streams
        .into_iter()
        .map(|(pr_type, stream)| create_pr_type(&pr_type, stream))
        .collect();
    quote! { #head #prs }'''))
edit('tool4-flag-first', ['C17'], G + 'main.rs', ('''    let input_paths''', '''    let ugly = matches.is_present("ugly");
    let output_path = matches.value_of("output-file").unwrap();
    let input_paths'''), ('''    let output_path = matches.value_of("output-file").unwrap();
    let mut file''', '''    let mut file'''), ('''    if !matches.is_present("ugly") {''', '''    if !ugly {'''))
edit('tool4-scope', ['C17'], G + 'main.rs', ('''    let mut file = fs::File::create(output_path)?;
    file.write_all(complete_rs_code.as_bytes())?;
''', '''    {
        let mut file = fs::File::create(output_path)?;
        let mut rest = complete_rs_code.as_bytes();
        while !rest.is_empty() {
            let (chunk, tail) = rest.split_at(rest.len().min(65536));
            file.write_all(chunk)?;
            rest = tail;
        }
    }
'''))
edit('tool4-read-all', ['C17'], G + 'main.rs', ('''    let input_jsons = input_paths
        .iter()
        .map(|path| fs::read_to_string(path).expect("file not found"))
        .collect::<Vec<_>>();''', '''    let input_jsons: Vec<String> = {
        let mut texts = Vec::with_capacity(input_paths.len());
        for path in &input_paths {
            match fs::read_to_string(path) {
                Ok(text) => texts.push(text),
                Err(error) => {
                    eprintln!("{}: {}", path, error);
                    std::process::exit(1);
                }
            }
        }
        texts
    };'''))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def one(args):
    w, todo = args
    base = '/tmp/quiet/%d' % w
    v, r = base + '/verif', base + '/repo'
    out = []
    for name, checks, f, subs in todo:
        sh(['git', '-C', r, 'checkout', '-q', '--', '.'])
        p = os.path.join(r, f)
        s = open(p).read()
        bad = None
        for sub in subs:
            if len(sub) == 3:       # another file
                t = open(os.path.join(r, sub[0])).read()
                open(os.path.join(r, sub[0]), 'w').write(t + sub[2] if sub[1] is None else t.replace(sub[1], sub[2]))
                continue
            a, b = sub
            if a is None:
                s += b
                continue
            if a not in s:
                bad = 'no such text: ' + a[:60]
                break
            s = s.replace(a, b) if name.startswith('rules-') and 'type PluralRule' not in a else s.replace(a, b)
        if 'rules-fn' == name:
            s = s.replace('    whole(po)\n}', '    po.f == 0\n}')
        if bad:
            out.append((name, '-', 'EDIT ' + bad)); print(out[-1], flush=True)
            continue
        open(p, 'w').write(s)
        for c in checks:
            t = time.time()
            q = sh(['python3-vt', 'check.py', c], cwd=v, env=dict(os.environ, VERIF_REPO=r, VERIF_SEED='1', VERIF_TIER='quick'))
            ud = [l for l in q.stdout.split('\n') if l.startswith('UNDECIDED')]
            txt = 'rc=%d %.0fs %s' % (q.returncode, time.time() - t, ('undecided %d: %s' % (len(ud), ud[0][:230])) if ud else '')
            if q.returncode:
                txt += '\n      ' + '\n      '.join((q.stdout + q.stderr).strip().split('\n')[-6:])
            out.append((name, c, txt))
            print(name, c, txt, flush=True)
    return out


def main():
    k = sys.argv[2] if len(sys.argv) > 2 and sys.argv[1] == '-k' else ''
    only = sys.argv[3].split(',') if len(sys.argv) > 3 else None
    todo = [(n, [x for x in c if not only or x in only], f, s) for n, c, f, s in E if re.search(k, n)]
    n = min(6, len(todo))
    shutil.rmtree('/tmp/quiet', ignore_errors=True)
    for w in range(n):
        base = '/tmp/quiet/%d' % w
        os.makedirs(base)
        sh('cp -a %s %s/verif && git clone -q /repo %s/repo' % (V, base, base))
        if os.path.exists('/repo/Cargo.lock'):
            shutil.copy('/repo/Cargo.lock', base + '/repo/')
        for c in ('gen', 'intl', 'parser'):
            p = '%s/verif/native/%s/Cargo.toml' % (base, c)
            s = open(p).read().replace('"/repo/', '"%s/repo/' % base)
            open(p, 'w').write(s)
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, [(w, todo[w::n]) for w in range(n)]))
    shutil.rmtree('/tmp/quiet', ignore_errors=True)


if __name__ == '__main__':
    main()
