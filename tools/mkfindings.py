"""Writes known_findings.json: repaired defects (they suppress nothing) and recorded ones (none)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
C02 39ec2bd conjugating an index whose name contains further letters u or d (Index("u_d0"), "D0") changed the name, not only the type letter
C03 bc6c892 equal fields whose charges were given in another order had different hashes
C06 00de38e stripping the derivatives of D(H) or D(L) gave a field unequal to the bare one
C06 3a69dbb a fermion differentiated without flipping its chirality (D(L,"21")) was stripped to the other chirality
C08 7d33ed4 for an operator with an epsilon colour singlet the uncontracted operator was returned as a further singlet
C09 b03a754 invariants of repeated fields without indices (singlet scalars) raised an exception
C11 7be2123 an operator with a colour delta could not be reloaded from its stored form
C12 df7ccf1 a Dirac fermion with zero hypercharge was not found to be its own partner's partner
C12 12de9d8 the partner of a conjugated Dirac fermion carried dagger and tilde in another order than the conjugate of the partner
C16 0057f7a a pattern with wildcards did not match empty text
C17 5db1ac5 fixed_point ignored the given function
C17 124e83d multiset_equality raised NameError (Counter was not imported)
C17 96daddb multiple_replace replaced a shorter key that is a prefix of a longer one
C22 2d6c3c8 operators with three or more interchangeable fields were counted by pairs
C23 8191c6d conjugating a Dirac fermion dropped its LaTeX name
C23 aeb33c2 a real scalar exotic lost its conjugation flag
C23 379755f copying a Dirac fermion dropped which half it is
C23 ab73327 copying a completion dropped its topology
C11 d137fdc copying a lowered index raised it
C11 6326b7c copying an indexed field dropped its charges and flags
C11 4095734 copying an operator dropped its tensors
C25 c1b9846 grouping completions by field content kept only the last run of equal keys
C27 f63b4c6 moving derivatives on a field with other statistics or generation number lost both
C34 6876144 forcing a database with several operators kept only one of them
C34 fd1a8d1 a database read from files counted as ordered and could not be ordered
C35 8c98c9b related models of a single-field model raised an exception
C36 59fa43f exported completions with LaTeX names containing backslashes did not reload to the same names
C36 38ab961 exported Dirac fermions reloaded without which half they are
C37 604ca27 indices i1 and i10 of one operator were confused when expanding components
C38 e44e758 closure rule c(eb) nu -> ye hp nu nu changed the electric charge by two
C38 80444a5 closure rule c(hp) u c(d) -> v g2 loop loop changed charge and the parity of doublets
C38 7e61d8f closure rule c(eb) c(d) u inserted quark masses with the chirality of the quarks already right
C41 ac95f1b the symbolic Hermitian conjugate (.H) of a mixing matrix raised an exception
C41 aeb66fc the CP phase of the CKM matrix was given in degrees as if in radians
C43 3829cfd renaming exotics of one Lagrangian could make it inequivalent to itself: names were replaced inside names after the canonical form, which depends on them, was taken
C43 827f371 a completion with two exotics of equal quantum numbers was not equivalent to itself (192 of the 1440 completions of operator 10)
C09 a3ad6ea the vanishing product H H S S of a doublet and a singlet scalar was kept as an invariant, or raised an exception
C47 2dd8e31 the full Lagrangian of a singly charged scalar contained the vanishing term H H φ†, which lost one U(1) symmetry
C47 48366b9 mass terms were listed twice in the full Lagrangian
C48 3fa725b LaTeX of operators with exotics of several-letter names (S1) raised an exception
C48 00ee018 LaTeX with ignored index types raised an exception if such indices were contracted
C49 8ba46a0 the JSON export of every completion raised an exception (graph edges carry labels, and networkx names them differently)
C50 28460ab most rows of the one-loop Weinberg tables gave the fields of one loop different colours, so that colour did not flow
C51 13e0fbe exotic fermions commuted when couplings were simplified, so that two like exotic fermions coupled to a scalar seemed to vanish
C51 4a22701 the last field string with any invariants was kept, not the one with the most; fields with three derivatives were let through
C19 4636835 the same fields contracted into different representations gave exotics of one name (operator 1p, isospin singlet and triplet)
C21 32c65dc a vertex with three spinor indices of one type raised an exception, one of three and one would have been a vector
C51 1e8bde0 completions() raised a NameError; so did a vanishing last vertex of a derivative operator
C18 66c0b5f completions whose last coupling vanishes identically were listed
C51 edc4d38 of two internal lines of one exotic without indices only one was recorded in the graph
C52 b29bc3d field strings of a list of fields (not a tuple) raised a TypeError
C52 381080d listing field strings left a lepton number on the standard model fields, so that Lagrangians of exotics without one raised an AssertionError from then on
C52 f568327 importing tensormethod.smeft did the same under another name
"""
out = []
for l in FIXED.strip().splitlines():
    p, c, w = l.split(" ", 2)
    out.append({"property": p, "status": "fixed", "commit": c, "entry": f"fixed: property={p} {c} {w}"})
with open(os.path.join(HERE, "known_findings.json"), "w") as f:
    json.dump(out, f, indent=1, ensure_ascii=False); f.write("\n")
print(len(out))
