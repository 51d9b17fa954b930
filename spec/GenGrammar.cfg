SPECIFICATION Spec
CONSTANTS
  Top <- GTop
  MaxDepth <- GDepth
  Spine <- GSpine
  Torch <- GTorch
  Other <- GOther
  NewSyntax <- GNew
  Only <- GOnly
INVARIANTS EmitDone Homomorphic
CHECK_DEADLOCK FALSE
