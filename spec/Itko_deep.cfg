SPECIFICATION Spec
CONSTANTS
  TW = 2
  Insts = {1, 2}
  SubIds = {1, 2}
  MaxReq = 3
  MaxHeads = 3
  MaxBad = 1
  MaxQ = 0
  MaxClk = 0
  PoolMax = 2
  Files = 1
  Fenced = TRUE
  AllProps = {"C01","C02","C03","C04","C05","C06","C07","C08","C09","C11","C12","C13","C14","C15","C16","C17","C18","C19","C20","C22"}
  Nil = Nil
  BaseH = BaseH
INVARIANTS Good Disjoint
CHECK_DEADLOCK FALSE
