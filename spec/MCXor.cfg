CONSTANTS W = 4
          LenB = 2
          GLeadB = 1
          LeadB = 1
          LeadTab <- Tab
          ElfB = 1
          RingB = 1
          Codecs = {"gorilla", "chimp", "chimp128", "elf"}
SPECIFICATION Spec
INVARIANTS ReadBack NotCut Total
CHECK_DEADLOCK FALSE
