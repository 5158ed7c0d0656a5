#pragma once
#include "drv.h"
#include <array>
struct Doc
{
    std::shared_ptr<MemFile> file = std::make_shared<MemFile>();
    std::shared_ptr<libCZI::ICziWriter> writer; std::shared_ptr<libCZI::ICziReaderWriter> editor; std::shared_ptr<libCZI::ICZIReader> reader;
    void Run(const JV& op, JV& ev, JA& a);
    void EdDump(JV& e, JA& a);
    void EdState(JV& e, JA& a);
    template <class R> std::string CallOne(const std::string& f, R* r, std::string* det);
    template <class R> void CallAny(const JV& op, JV& e, JA& a, R* r);
    template <class R> void Query(const JV& op, JV& e, JA& a, R* r);
};
JV InfoV(const libCZI::SubBlockInfo& i, JA& a);
void DumpFile(const std::shared_ptr<libCZI::IStream>& f, const JV& op, JV& e, JA& a);
void Layout(const Bytes& b, JV& e, JA& a);
