CONSTANT
  L = 5
INIT Init
NEXT Next
INVARIANTS SmoothLaws WindowLaws PartLaws MaskLaws FlipLaws Emit
CHECK_DEADLOCK FALSE
