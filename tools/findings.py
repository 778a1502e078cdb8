# Writes known_findings.jsonl
import json
F="""C15 ca521c5 write_into() panicked when the template failed with an error of its own
C23 dc7bd0a askama_axum answered with status 200 and an empty page if rendering failed
C17 9e78516 nesting levels leaked if a target could not be parsed, so that long templates were refused as too deep
C18 4fe388e row and column of a parse error right behind a line break were those of the line before
C11 a12d8ca paragraphbreaks made empty paragraphs at the start and end
C05 ea3853b expressions before an assignment to a declared variable showed the value after it
C05 5e534e0 variables named like Rust keywords could not be declared first and assigned later
C05 56fee32 variables of a block that is defined inside of other code were resolved in the scope around the block
C05 a40dee3 variables that blocks and included templates declare leaked into what follows
C14 8874485 variables named like the generated buffer, and nested filter blocks, took each other's text
C04 4ff05fa the second of two equal join filters rendered nothing
C09 cb78f93 blocks inside of filter blocks were not found, and missing blocks panicked
C22 49fb185 cycles of extended templates of more than two files made the compiler hang
C10 fe5e64a included templates were searched relative to the derived template instead of the one that includes them
C22 1a7de29 recursive macros, includes and blocks overflowed the compiler's stack
C22 e662533 long chains of operators, filters and suffixes overflowed the compiler's stack
C14 0f3952b the content of a filter block was passed to the last filter if a filter had filters in its arguments
C08 349e7b1 parameters and variables of macros were captured by those of the caller
C16 82e0488 filters panicked on values whose Display fails
C03 e10027d white space was not minimized if only the tag before it asked for it
C09 4103fed block fragments did not compile, or failed, because of code of other blocks
C11 5569178 center did not pad values whose Display ignores the width
C11 b7ffaba filesizeformat panicked or never ended with infinite and huge values
C22 779cb4c the derive macro panicked (overflow) on deeply nested loops
C22 b323533 the derive macro panicked (overflow) on code nested more than 63 levels deep
C22 41f7ba8 loops over arrays of computed values and over iterators that borrow from temporaries did not compile
C22 d42f8ba the documented `{{ 1000|filesizeformat }}`, and filesizeformat of anything but variables and fields, did not compile
C22 41ae37e the documented `{{ value|capitalize|fmt("{:?}") }}` did not compile
C22 1b8bd55 a template attribute without path and source made the derive macro panic
C22 180c772 an attribute key that is a path made the derive macro panic
C22 b28aa8a generated code that cannot be tokenized made the derive macro panic
C22 c83a17b templates on types with a where clause and without generics did not compile
C22 1faae90 an unknown block of a template without blocks was not reported
C10 cad899d templates in Rust sources looked for files in the working directory of the compiler before the configured directories
C26 1d68009 a template behind a symbolic link was not a dependency by its own name (and the derive macro panicked where the name it resolves to is not UTF-8)
C28 654a563 templates with conditions did not compile where bool means something else
C06 c217c21 match and if let on results of operators did not compile
C05 8bdad32 names that start with an underscore were paths: a macro parameter `_a` could silently be another variable of the caller, and fields and `let` of such names did not compile
C28 a68405b templates did not compile where include_bytes means something else
C28 380b0a0 loops over arrays and loops with conditions did not compile where a blanket trait has a method `iter` or `filter`
C05 9af4fd0 fields named `loop` (`r#loop`) could not be used: the name was not written as a raw identifier
C05 77d788c fields and variables whose names begin with a letter without case (like those of Chinese) could not be used: they were read as paths"""
with open("known_findings.jsonl","w") as f:
    for l in F.splitlines():
        p,c,w=l.split(" ",2)
        f.write(json.dumps({"fixed":f"fixed: property={p} {c} {w}"})+"\n")
    for q,i,w in (("C16","fmt-filter-of-failing-display",'`{{ x|fmt("{}") }}` panics if the Display of x fails (the filter is defined as format!, which panics)'),
                ("C16","format-filter-of-failing-display",'`{{ "{}"|format(x) }}` panics if the Display of x fails (the filter is defined as format!, which panics)'),
                ("C28","the-name-Some","a template with an extension does not compile where `Some` is not that of the prelude (the generated code says `Some(..)`, which a unit test requires)"),
                ("C28","the-name-None","a template without an extension does not compile where `None` is not that of the prelude"),
                ("C28","the-name-Sized","a template does not compile where `Sized` is not that of the prelude (the generated code says `?Sized`, which a unit test requires)"),
                ("C28","the-method-into_iter","a loop does not compile where all types have another method `into_iter` by a blanket trait (the generated code calls it by name, which also finds that of what a Box or Rc points to)"),
                ("C28","the-method-len","`loop.cycle` does not compile where all types have another method `len` by a blanket trait (the generated code calls it by name, so that any collection with a `len` can be used)"),
                ("C08","macro-argument-field-of-call","an argument of a macro that is a field of the result of a call, `{% call m(f().x) %}`, is evaluated every time the macro uses it, and not at all if it does not")):
        f.write(json.dumps({"property":q,"id":i,"what":w})+"\n")
