#!/usr/bin/env python3
"""Writes known_findings.txt: fixed defects (informative) and open findings (matched by the checks)."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git","-C","/repo","log","--format=%h\t%s","5e2988c.."],capture_output=True,text=True).stdout.splitlines()
M = [
 ("a function call ends", "C05", "text after a function call's closing parenthesis was swallowed: sin(x)^2 was read as sin(x^2)"),
 ("accept a root only if", "C04", "points with a large remaining Newton step were accepted; each residual was tested instead of the norm"),
 ("inplace_row_swap", "C08", "inplace_row_swap swapped columns"),
 ("writing to a matrix element", "C08", "out-of-range writes landed in another element of the matrix"),
 ("invert matrices of five", "C08", "inversion of 5x5 and larger matrices failed or lost accuracy on a zero or small pivot"),
 ("a failing matrix call", "C07", "a call that failed released the caller's matrices"),
 ("a variable solved from one equation", "C01", "variables solved from single equations stayed unknowns of the later subsystem: wrong or missing values"),
 ("rejected equations leave", "C03", "a rejected equation left its variables in the context; earlier equations did not see later variables"),
 ("equation solving starts at", "C06", "guess and domain were mixed up, a root outside the domain was reported and a failed unknown stayed in the context"),
 ("solve_equation works on", "C06", "solve_equation changed the caller's context; specify_variable reported success for unknown variables"),
 ("cubic length units", "C01", "cubic units were converted with the square of the length factor"),
 ("solve_with_preprocessors separates", "C09", "values in the C interface's solution text ran into one another"),
 ("look through the equation pool", "C02", "an equation that only became usable after a later one was never tried again"),
 ("comments and signed numbers", "C02", "trailing comments, negative guesses and domain bounds were misread"),
 ("a built-in constant is replaced", "C01", "constants whose name starts with another constant's name were replaced by the wrong value"),
 ("conditionals survive", "C01", "names containing if/else/end and blanks after a colon broke conditionals"),
 ("sources driving their input", "C11", "sources driving their input node had the wrong sign and carried no flux there"),
 ("driven potentials follow", "C11", "potentials driven by a source were stale in evaluations and results"),
 ("the solvers never write", "C15", "both command-line tools could overwrite their input file; --output-file was not accepted"),
 ("a saved model can be read", "C14", "parsing a saved model from its text always failed"),
 ("switching panels and closing", "C17", "panel contents, handlers and tabs were lost when switching panels and closing tabs"),
 ("the inverse of a 3x3", "C08", "the inverse of a 3x3 matrix was transposed"),
 ("complete the determinant", "C08", "a term was missing in the determinant of a 4x4 matrix"),
 ("a flux formula cannot read", "C13", "a custom flux formula could not read its nodes' potentials during a study"),
 ("nxc --verbose stops", "C16", "nxc -v ended with a panic on solvable programs with a # word or [a->b] in a comment"),
 ("file names that look like", "C17", "files named like markup (o'brien.nxs, <b>.nxs) or like the page's own ids (files, model) got no tab"),
 ("names like inf and nan", "C05", "variables and constants named inf, nan or infinity were read as that number (wrong values in C01, unsolved in C02, C03, C06, C09)"),
 ("declarations that are not understood", "C01", "declared constants were cut short (3e8 read as 3, 1/3 as 1) and domains or guesses in another notation silently ignored"),
 ("a guess declaration no longer", "C02", "a guess for x on an equation's line left the rest of a guess for xy behind"),
 ("malformed equations and", "C03", "equations with missing operands or surplus parentheses were accepted"),
]
out = ["# fixed: property=<id> <commit> <what failed>          repaired in /repo, suppresses nothing",
       "# finding: property=<id> class=<class> match=<text> :: <what fails>   known and open, printed as KNOWN-FINDING"]
for l in log[::-1]:
    h, s = l.split("\t", 1)
    if not s.startswith("fix:"): continue
    e = [m for m in M if m[0] in s]
    assert len(e) == 1, (s, e)
    out.append(f"fixed: property={e[0][1]} {h} {e[0][2]}")
open(os.path.join(V, "known_findings.txt"), "w").write("\n".join(out) + "\n")
