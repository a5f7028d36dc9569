PLY_STRUCT_BEGIN(TestStruct)
PLY_STRUCT_MEMBER(name)
PLY_STRUCT_MEMBER(value)
PLY_STRUCT_END()

