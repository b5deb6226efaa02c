-------------------------------- MODULE Kw ---------------------------------
(* Generated by gen_kw.py: fixed texts as sequences of code points.         *)
K_true == <<116, 114, 117, 101>>  \* true
K_false == <<102, 97, 108, 115, 101>>  \* false
K_null == <<110, 117, 108, 108>>  \* null
K_True == <<84, 114, 117, 101>>  \* True
K_False == <<70, 97, 108, 115, 101>>  \* False
K_Null == <<78, 117, 108, 108>>  \* Null
K_nil == <<110, 105, 108>>  \* nil
K_Nil == <<78, 105, 108>>  \* Nil
K_none == <<110, 111, 110, 101>>  \* none
K_None == <<78, 111, 110, 101>>  \* None
K_undefined == <<117, 110, 100, 101, 102, 105, 110, 101, 100>>  \* undefined
K_missing == <<109, 105, 115, 115, 105, 110, 103>>  \* missing
K_and == <<97, 110, 100>>  \* and
K_or == <<111, 114>>  \* or
K_not == <<110, 111, 116>>  \* not
K_in == <<105, 110>>  \* in
K_contains == <<99, 111, 110, 116, 97, 105, 110, 115>>  \* contains
K_length == <<108, 101, 110, 103, 116, 104>>  \* length
K_count == <<99, 111, 117, 110, 116>>  \* count
K_value == <<118, 97, 108, 117, 101>>  \* value
K_match == <<109, 97, 116, 99, 104>>  \* match
K_search == <<115, 101, 97, 114, 99, 104>>  \* search
K_typeof == <<116, 121, 112, 101, 111, 102>>  \* typeof
K_type == <<116, 121, 112, 101>>  \* type
K_isinstance == <<105, 115, 105, 110, 115, 116, 97, 110, 99, 101>>  \* isinstance
K_is == <<105, 115>>  \* is
K_string == <<115, 116, 114, 105, 110, 103>>  \* string
K_array == <<97, 114, 114, 97, 121>>  \* array
K_object == <<111, 98, 106, 101, 99, 116>>  \* object
K_boolean == <<98, 111, 111, 108, 101, 97, 110>>  \* boolean
K_number == <<110, 117, 109, 98, 101, 114>>  \* number
K_str == <<115, 116, 114>>  \* str
K_list == <<108, 105, 115, 116>>  \* list
K_sequence == <<115, 101, 113, 117, 101, 110, 99, 101>>  \* sequence
K_tuple == <<116, 117, 112, 108, 101>>  \* tuple
K_dict == <<100, 105, 99, 116>>  \* dict
K_mapping == <<109, 97, 112, 112, 105, 110, 103>>  \* mapping
K_bool == <<98, 111, 111, 108>>  \* bool
K_int == <<105, 110, 116>>  \* int
K_float == <<102, 108, 111, 97, 116>>  \* float
K_dd == <<46, 46>>  \* ..
K_eq == <<61, 61>>  \* ==
K_ne == <<33, 61>>  \* !=
K_le == <<60, 61>>  \* <=
K_ge == <<62, 61>>  \* >=
K_lg == <<60, 62>>  \* <>
K_re == <<61, 126>>  \* =~
K_aa == <<38, 38>>  \* &&
K_oo == <<124, 124>>  \* ||
K_maxint == <<57, 48, 48, 55, 49, 57, 57, 50, 53, 52, 55, 52, 48, 57, 57, 49>>  \* 9007199254740991
=============================================================================
