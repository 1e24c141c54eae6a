INIT TInit
NEXT TNext
CONSTRAINT Reach
POSTCONDITION Accepted
CONSTANTS
  LC <- TLC1
  FOLD <- TFold
  OkTotp <- No
  OkUrl <- No
  OkLabel <- No
  Secret <- Id
  When <- Id
  IntOf <- Zero
  IsInt <- No
