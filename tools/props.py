import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
R="intl_pluralrules/src/rules.rs"; L="intl_pluralrules/src/lib.rs"; O="intl_pluralrules/src/operands.rs"
PP="cldr_pluralrules_parser/src/parser.rs"; PL="cldr_pluralrules_parser/src/lib.rs"; PA="cldr_pluralrules_parser/src/ast.rs"
GL="make_pluralrules/src/lib.rs"; GP="make_pluralrules/src/parser/gen_pr.rs"; GR="make_pluralrules/src/parser/gen_rs.rs"; GS="make_pluralrules/src/parser/resource.rs"; GM="make_pluralrules/src/main.rs"
p("C01","Cardinal category is the CLDR 37 category for every locale and number",
  "For every locale of the CLDR 37 cardinal data and every number, selecting with that locale's cardinal rules returns exactly the category whose CLDR 37 rule (UTS #35 semantics) is true of the number's operands, and `other` when none is. It never panics.",
  ["inputs"],"all 212 non-root cardinal locales x all operand sets (n,i,v,w,f,t) of a decimal number, i and f over the full 64-bit range (numbers whose fraction is not lost when n is rounded to a double)",
  "Tests try one locale (naq) with 3 numbers plus a few doc examples; rule errors hide at particular residues mod 10..1000000 and particular fraction lengths of one of 212 locales.",
  [R,L],[("PRS_CARDINAL table of rule closures",R),("PluralRules::select applies the stored rule",L)],
  ["PluralRules::create(locale, CARDINAL)?.select(number)"])
p("C02","Ordinal category is the CLDR 37 category for every locale and number",
  "For every locale of the CLDR 37 ordinal data and every number, selecting with that locale's ordinal rules returns exactly the category whose CLDR 37 rule (UTS #35 semantics) is true of the number's operands, and `other` when none is. It never panics.",
  ["inputs"],"all 97 non-root ordinal locales x all operand sets of a decimal number (whose fraction is not lost when n is rounded to a double)",
  "Tests try one locale (uk) with 2 numbers.",
  [R,L],[("PRS_ORDINAL table of rule closures",R),("PluralRules::select applies the stored rule",L)],
  ["PluralRules::create(locale, ORDINAL)?.select(number)"])
p("C03","Locale lookup is exact: every supported locale is found, nothing else is",
  "For every language identifier and rule type, creating plural rules succeeds exactly when that identifier (language, script, region and variants all equal) is one of the CLDR 37 locales of that type, and otherwise returns an error. The listing of locales of a type contains each of those identifiers exactly once and no other, and an instance reports exactly the identifier it was created with, its clones included.",
  ["inputs","histories"],"every language identifier x both rule types",
  "Tests look up a handful of identifiers; lookup is a binary search whose correctness depends on every entry of the table being in order.",
  [L,R],[("binary search over the sorted tables",L),("PRS_CARDINAL / PRS_ORDINAL sorted by identifier",R)],
  ["PluralRules::create","PluralRules::get_locales","PluralRules::get_locale"],
  state=[dict(name="rule tables",meaning="strictly increasing by language identifier",where=R)])
p("C04","Integer inputs convert to the operands of their magnitude",
  "For every value of every unsigned and signed integer type, the operands have i equal to the exact absolute value, n equal to that value as a double, and v, w, f, t all zero. A value may instead be rejected with an error only when it is the minimum of a 64-bit signed type; the conversion never panics and never yields another magnitude.",
  ["inputs"],"all values of u8,u16,u32,u64,usize,i8,i16,i32,i64,isize",
  "Tests use seven i32 values; wrap, truncation or sign slips show only at type boundaries of one of ten types.",
  [O],[("impl_integer_type / impl_signed_integer_type macros",O)],["PluralOperands::from / try_from for integers"])
p("C05","Decimal text converts to exactly the UTS #35 operands of what is written",
  "For every text of the form optional '-', digits, optionally '.' and digits, whose integer part and fraction part each fit 64 bits, the operands are exactly those UTS #35 defines: i the integer part, v the number of fraction digits, w that number without trailing zeros, f and t the fraction digits as an integer with and without trailing zeros, and n the nearest double of the absolute value. The sign never changes the result.",
  ["inputs"],"all decimal numerals of any length with integer and fraction part below 2^64",
  "Tests use 13 short strings; leading/trailing zeros, long digit strings, integers above 2^53 and sign combinations are unbounded.",
  [O],[("TryFrom<&str> for PluralOperands",O)],["PluralOperands::try_from(&str)","PluralOperands::try_from(String)"])
p("C06","Text that is not a number is rejected; accepted text gives coherent operands",
  "For every string, conversion returns (never panics), and returns an error whenever the string is not an optional '-' followed by a number without a minus sign of its own, as the standard library reads doubles, or has a decimal point whose integer or fraction side is not a 64-bit unsigned integer. Whenever it succeeds the operands are coherent: n is not negative, w <= v, t = 0 exactly when f = 0 and when w = 0, t <= f, v = 0 implies f = 0, and i <= n <= i + 1 when n is below 2^53.",
  ["inputs"],"all strings, including empty, non-ASCII, signs, exponents, multiple dots, very long digit runs",
  "Tests try one bad string ('foo').",
  [O],[("TryFrom<&str> error paths and slicing",O)],["PluralOperands::try_from(&str)","PluralRules::select(&str)"])
p("C07","Float inputs convert to the operands of their shortest decimal form",
  "For every finite f64 or f32, conversion gives exactly the operands of the number's shortest round-trip decimal text (Display), ignoring the sign; every finite value is accepted, n of an f64 is its absolute value, and there are no trailing fraction zeros (v = w, f = t). Only i is left open when the integer part does not fit 64 bits.",
  ["inputs"],"all finite f64 and f32 values",
  "Tests use six floats.",
  [O],[("impl_convert_type macro: to_string then TryFrom<&str>",O)],["PluralOperands::try_from(f64)","PluralOperands::try_from(f32)"])
p("C08","The same number gives the same operands whatever type carries it",
  "For every integer x, x as any integer type that holds it, its decimal text, that text as an owned string and, below the precision of the type (2^53, 2^24), x as an f64 or f32 all convert to equal operands, and so do x and -x (the minimum of a 64-bit signed type may be rejected). A borrowed and an owned string with equal contents always convert identically, errors included.",
  ["inputs"],"all integers representable in the pairs of types; all strings",
  "Tests compare each type against its own table of constants and never compare types with each other.",
  [O],[("all conversion impls of PluralOperands",O)],["PluralOperands::from / try_from"])
p("C09","select is total and returns exactly the rule's verdict on the converted number",
  "For every input whose conversion to operands succeeds, built-in or user-defined, selection returns the category the instance's rule gives for exactly those operands; when the conversion fails it returns an error. Selection has no memory: equal operands always give equal categories, also through clones.",
  ["inputs","histories"],"every operand set, every conversion outcome, every sequence of selections on one instance",
  "Tests make single calls with valid input; the error arm and user-defined conversions are tried at most once.",
  [L],[("PluralRules::select",L)],["PluralRules::select"])
p("C10","Every well-formed plural rule condition parses to the syntax tree it denotes",
  "For every plural rule condition of the UTS #35 grammar (operands n i v w f t, optional 'mod'/'%' modulus, the operators = != is, is not, in, not in, within, not within, lists of values and ranges 'a..b' that fit the machine word, and/or chains), written with blanks (spaces, tabs) between tokens - any run of at least one around the words and, or, mod, is, not, in, within and after '%', any run or none around '=', '!=' and ',' and before '%', none inside a range -, parsing succeeds and yields exactly the tree with the same operands, moduli, operators, bounds and and/or structure in the written order.",
  ["inputs","programs"],"all conditions of the grammar: any number of conjuncts, disjuncts and list items, any word-sized numbers, any blank runs",
  "Tests parse ten fixed strings; nesting, list lengths, numbers and spacing are unbounded.",
  [PP,PA,PL],[("nom parser functions value..parse_condition",PP),("parse_plural_rule / parse_plural_condition",PL)],["parse_plural_rule(..).condition","parse_plural_condition(..)"])
p("C11","The parser accepts only complete rules and both entry points agree",
  "For every string, parsing returns (never panics or loops); the rule entry point succeeds only if the whole text is a (possibly absent) condition followed by samples, never on a proper prefix, its tree is then the one of the written tokens (white space between tokens aside), and whenever it succeeds the condition entry point succeeds with an equal condition. No numeric literal is ever accepted with a value other than the one written.",
  ["inputs"],"all strings",
  "No test feeds an ill-formed rule; silent truncation or acceptance is invisible to tests of valid rules.",
  [PL,PP],[("parse_plural_rule matches on an empty remainder",PL),("value: checked usize parse",PP)],["parse_plural_rule","parse_plural_condition"])
p("C12","Samples parse to exactly what is written and never affect the condition",
  "For every rule, its condition possibly absent, followed by '@integer' and/or '@decimal' sample lists of the UTS #35 grammar (numbers fitting the machine word, at least one blank after '@integer'/'@decimal', blanks optional before them and around ',' and '~'), parsing succeeds, the condition is the one obtained without samples, and the samples are exactly the written values and '~' ranges in order, in the list they were written in, with the ellipsis flag set exactly when '...' or '\u2026' is written.",
  ["inputs","programs"],"all sample lists of any length after any condition",
  "Tests compare only the condition, never the samples.",
  [PP,PA],[("decimal_value, sample_range, sample_list, samples, parse_rule",PP)],["parse_plural_rule(..).samples"])
p("C13","Generated code for a condition computes that condition",
  "For every plural rule condition accepted by the generator (moduli positive, numbers compared with n below 2^53), the Rust boolean expression it emits, formatted as the tool formats it and compiled against the operands structure, is true of exactly the operand sets for which the condition is true under UTS #35, for every combination of operand, modulus, operator, value/range list and and/or structure.",
  ["programs","inputs"],"all conditions (operand x modulus x operator x list shape x and/or nesting) x all operand sets",
  "Fixture tests pin the text emitted for CLDR 33 and one 'within' file; combinations outside that data (not in lists, modulus on v/w/t, ...) are never generated, and pinned text is not checked for meaning.",
  [GP],[("create_relation / create_and_condition / create_condition",GP)],["generate_rs output"],
  hook=None)
p("C14","The generated table is complete, correctly keyed, categorised and searchable",
  "For every CLDR resource whose locale names are distinct identifiers language[-Script][-REGION], the generated table of a rule type has exactly one entry per locale other than 'root', its key decodes to that locale's identifier, entries are strictly increasing in the order the lookup uses, each rule yields the category it is listed under with 'other' as the fallback, and the recorded CLDR version is the resource's; a version that is not a whole number yields no output.",
  ["programs","inputs"],"all resources: any set of locales (with scripts/regions), any subset of categories, any version number, either or both types",
  "Fixture tests cover one data set in which almost all keys are plain two/three-letter languages.",
  [GL,GR],[("gen_type_rs: filter root, parse, sort",GL),("gen_langid, gen_mid, create_return, create_pr_type, gen_fn",GR)],["generate_rs output"])
p("C15","Inconsistent or empty generator input is refused",
  "For every sequence of resources, generation produces output only if at least one resource carries plural data, all resources declare the same CLDR version, and neither rule type is provided twice; otherwise it stops with an error and produces nothing.",
  ["inputs","configurations"],"all finite sequences of resources (version, has cardinal data, has ordinal data)",
  "Tests try three sequences of length at most two.",
  [GL],[("generate_rs version / duplicate / emptiness checks",GL)],["generate_rs"])
p("C16","The shipped rule table is what the generator makes of the shipped CLDR data",
  "Running the generator on the CLDR data shipped with the library yields a table with the same locales in the same order, the same CLDR version, and rules that give the same category as the shipped rules for every operand set.",
  ["inputs","programs"],"both shipped data files x all operand sets",
  "No test regenerates the shipped table; the version test compares one constant.",
  [R,GL,GP,GR,"intl_pluralrules/cldr_data/cldr_pluralrules_cardinals.json","intl_pluralrules/cldr_data/cldr_pluralrules_ordinals.json"],
  [("cargo regenerate-data",GL),("checked-in rules.rs",R)],["generate_rs output vs rules.rs"])
p("C17","The command line tool writes exactly the generated code to the output file",
  "For every list of input paths (without commas, which the argument parser reads as separators) and output path: the tool ends with success only if the output file then holds exactly the code the generator makes of the contents of all inputs in the given order, run through rustfmt unless unformatted output was asked for; it ends without success only if an input cannot be read as text, generation is refused, or a file operation or the start of rustfmt fails; and if an input is unreadable or refused, no file is created or changed.",
  ["inputs","fault_sequences"],"all argument lists, file contents and I/O failures (short and failing writes, unreadable inputs, missing rustfmt)",
  "No test runs the binary.",
  [GM],[("main: read, generate, create, write, rustfmt",GM)],["make_pluralrules -i ... -o ... [-u]"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
