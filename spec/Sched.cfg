SPECIFICATION SSpec
CONSTANTS
  TW = 2
  Insts = {1, 2, 3, 4}
  SubIds = {1, 2, 3, 4, 5}
  MaxReq = 9
  MaxHeads = 7
  MaxBad = 3
  MaxQ = 5
  MaxClk = 0
  PoolMax = 3
  Files = 1
  Fenced = TRUE
  AllProps = {"C01","C02","C03","C04","C05","C06","C07","C08","C09","C11","C12","C13","C14","C15","C16","C17","C18","C19","C20","C22"}
  Nil = Nil
  BaseH = BaseH
  Depth = 160
INVARIANTS Good Dump
CHECK_DEADLOCK FALSE
