HOOKS = None
NOT_APPLICABLE = {}
TV = ("TLA+ specification checked with TLC; traces recorded from the real program, "
      "driven by behaviours of the specification's generator, are validated against it")
NOTE = ("Every step of the real program recorded in the generated scenarios is checked by TLC "
        "against the declarative step relation in spec/Commands.tla; bounded by the number and "
        "size of generated scenarios.")
DONE = ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12",
        "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P25", "P26"]
CLAIMED = {p: ("model_checking", TV, NOTE) for p in DONE}
