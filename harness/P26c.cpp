//@link triangle
//@link jb
#define VP_3D
#include "P26b.cpp"
