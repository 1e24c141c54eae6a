INIT TInit
NEXT TNext
CONSTANTS
  LC <- TLC1
  FOLD <- Id
  OkTotp <- No
  OkUrl <- No
  OkLabel <- No
  Secret <- Id
  When <- Id
  IntOf <- Zero
  IsInt <- No
