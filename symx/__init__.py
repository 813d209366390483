"""symx: symbolic execution of edpyt's own sources on top of z3."""
