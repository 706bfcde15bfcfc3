SPECIFICATION Spec
CONSTANTS MaxReq = 3
 ReqLen = {1, 3}
 RespLen = {1, 2}
INVARIANT OwnResponse ResultKind AtMostOnce NoInvention NoPartialExecution Released
PROPERTY NoHang
CHECK_DEADLOCK FALSE
