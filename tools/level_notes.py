DEFAULT = ("The specification is simulated (seeded random behaviours) with its own laws as invariants, and every "
           "generated behaviour is replayed into the code of /repo's working tree; a difference from the specification "
           "beyond rounding is a violation. Not exhaustive: assurance is for the behaviours generated. Trusts the "
           "Quint simulator, the ITF decoding and the drivers in checks/.")
NOTES = {
 "P02": "All 2^17 scalar forms of a body's description and all 8 of a central's are enumerated by the specification "
        "and constructed for real (complete for scalar forms); forms with array arguments are sampled. Trusts the "
        "Quint simulator, ITF decoding and driver.",
}
NOTES["P27"] = (DEFAULT + " The specification differentiates what is smooth by central differences in 112-bit fixed point and the "
                "light by integrals along the edge of the occultor; its invariants compare these with difference quotients of the light itself. "
                "Kinks (an occultor of the size of the disc in its middle) are checked for finiteness only.")
TECH = {"P02": "Quint specification of the acceptance rules, complete enumeration replayed into the constructors"}
UNCLAIMED = {}
