INIT Init0
NEXT TNext
CONSTRAINT Reach
POSTCONDITION Accepted
CONSTANTS
  LC <- TLC1
  FOLD <- TFold
  OkTotp <- TTotp
  OkUrl <- TUrl
  OkLabel <- TLabel
  Secret <- TSecret
  When <- TWhen
  IntOf <- TInt
  IsInt <- TIsInt
