// Small queries over one bitcode file.
#include "common.h"
int main(int argc, char** argv)
{
    std::string mode = argv[1];
    LLVMContext C;
    auto M = loadModule(C, argv[2]);
    if (mode == "functions")
    {
        for (const Function& F : *M)
        {
            std::string t; raw_string_ostream os(t);
            os << *F.getFunctionType();
            // sign/zero extension is part of the calling convention for small integers
            for (unsigned i = 0; i < F.arg_size(); ++i)
            {
                if (F.hasParamAttribute(i, Attribute::ZExt)) os << " zext" << i;
                if (F.hasParamAttribute(i, Attribute::SExt)) os << " sext" << i;
            }
            os.flush();
            const char* l = F.hasExternalLinkage() ? "external" : F.hasLocalLinkage() ? "local" : F.isWeakForLinker() ? "weak" : "other";
            const char* v = F.hasDefaultVisibility() ? "default" : F.hasHiddenVisibility() ? "hidden" : "protected";
            emit(json::Object{ { "name", F.getName() }, { "defined", !F.isDeclaration() }, { "linkage", l }, { "visibility", v },
                               { "type", t }, { "loc", locOf(&F) } });
        }
    }
    return 0;
}
