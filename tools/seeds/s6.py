import sys; sys.path.insert(0,"/verif/tools"); from seed import mk
S='Src/libCZI/'; A='Src/libCZIAPI/src/'
SRV='''#include "libCZI_StreamsLib.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <unistd.h>
// a server for a file whose byte at position p is Val(p), of any size
static uint8_t Val(uint64_t p) { return (uint8_t)(p * 7 + (p >> 8) * 13 + (p >> 32) * 101); }
static int Serve() { int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t n = sizeof a; if (bind(s, (sockaddr*)&a, n) || listen(s, 64) || getsockname(s, (sockaddr*)&a, &n)) exit(3);
 std::thread([s] { for (;;) { int c = accept(s, nullptr, nullptr); if (c < 0) return; std::thread([c] { int one = 1; setsockopt(c, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); std::string b; char t[4096]; for (;;) { size_t e; while ((e = b.find("\\r\\n\\r\\n")) == std::string::npos) { ssize_t k = recv(c, t, sizeof t, 0); if (k <= 0) { close(c); return; } b.append(t, k); }
   size_t i = b.find("bytes="); unsigned long long lo = 0, hi = 0; sscanf(b.c_str() + i + 6, "%llu-%llu", &lo, &hi); b.erase(0, e + 4); std::string h = "HTTP/1.1 206 Partial Content\\r\\nContent-Length: " + std::to_string(hi - lo + 1) + "\\r\\n\\r\\n"; for (auto p = lo; p <= hi; ++p) h += (char)Val(p); send(c, h.data(), h.size(), MSG_NOSIGNAL); } }).detach(); } }).detach(); return ntohs(a.sin_port); }
static std::shared_ptr<IStream> OpenHttp(int port) { setenv("no_proxy", "*", 1); StreamsFactory::Initialize(); StreamsFactory::CreateStreamInfo i; i.class_name = "curl_http_inputstream"; return StreamsFactory::CreateStream(i, "http://127.0.0.1:" + std::to_string(port) + "/f"); }
static bool Good(IStream* s, uint64_t p, uint64_t n) { std::vector<uint8_t> b(n); uint64_t g = 0; s->Read(p, b.data(), n, &g); if (g != n) return false; for (uint64_t k = 0; k < n; ++k) if (b[k] != Val(p + k)) return false; return true; }
'''
mk('P24-http-offset','P24','an HTTP stream read at a position of 4 GiB and more','the position is truncated to 32 bits',
 [(S+'StreamsLib/curlhttpinputstream.cpp','ss << offset << "-" << offset + size - 1;','const unsigned first = static_cast<unsigned>(offset);\n    ss << first << "-" << first + size - 1;')],
 SRV+'int main(){ auto s=OpenHttp(Serve()); if(!s) return fail("no stream"); if(!Good(s.get(),5,100)) return fail("read near the start"); try { return Good(s.get(),(1ull<<32)+5,100)?0:fail("wrong bytes beyond 4 GiB"); } catch(std::exception& e) { return fail(e.what()); } }')
mk('P24-http-lock','P24','one HTTP stream read from several threads','the range of a request is set before the lock is taken',
 [(S+'StreamsLib/curlhttpinputstream.cpp','        std::lock_guard<std::mutex> lck(this->request_mutex_);\n\n','\n'),
  (S+'StreamsLib/curlhttpinputstream.cpp','        WriteDataContext write_data_context;\n','        std::lock_guard<std::mutex> lck(this->request_mutex_);\n        WriteDataContext write_data_context;\n')],
 SRV+'int main(){ auto s=OpenHttp(Serve()); std::atomic<int> bad{0}; std::vector<std::thread> t; for(int k=0;k<6;++k) t.emplace_back([&,k]{ for(int i=0;i<800;++i) try { if(!Good(s.get(),(uint64_t)(k*1000+i),50)) ++bad; } catch(std::exception&) { ++bad; } }); for(auto& x:t) x.join(); return bad?fail("a concurrent read delivered other bytes"):0; }')
mk('P21-enum-attr-stop','P21','a visitor of the attributes of a node which asks to stop','the enumeration of attributes goes on',
 [(S+'XmlNodeWrapper.h','''                    if (!enumFunc(std::wstring(ait->name()), std::wstring(ait->value())))
                    {
                        break;
                    }''','''                    enumFunc(std::wstring(ait->name()), std::wstring(ait->value()));''')],
 '#include "libCZI_Metadata.h"\nint main(){ auto f=std::make_shared<Mem>(); auto w=CreateCZIWriter(); w->Create(f,nullptr); Add(w,Tile{"C0",0,0,0,4,4,4,4}); Meta(w,"<ImageDocument><Metadata a=\\"1\\" b=\\"2\\" c=\\"3\\"/></ImageDocument>"); w->Close(); auto r=CreateCZIReader(); r->Open(f); auto m=r->ReadMetadataSegment()->CreateMetaFromMetadataSegment(); auto n=m->GetChildNodeReadonly("ImageDocument/Metadata"); int k=0; n->EnumAttributes([&](const std::wstring&,const std::wstring&){ ++k; return k<2; }); return k==2?0:fail("called again after asking to stop"); }')
mk('P24-bag-number','P24','stream options with a number given as a fraction','the fraction is accepted and truncated',
 [(A+'parameterhelpers.cpp','''            if (!itr->value.IsInt())
            {
                return false;
            }''','''            if (!itr->value.IsNumber())
            {
                return false;
            }'''),(A+'parameterhelpers.cpp','libCZI::StreamsFactory::Property(itr->value.GetInt())','libCZI::StreamsFactory::Property(static_cast<int>(itr->value.GetDouble()))')],
 '#define _LIBCZIAPISTATICLIB 1\n#include "libCZIApi.h"\nint main(){ InputStreamObjectHandle h=0; auto rc=libCZI_CreateInputStream("curl_http_inputstream","{\\"CurlHttp_Timeout\\":1.5}","http://127.0.0.1:1/x",&h); return rc!=0?0:fail("a fraction was accepted"); }')
mk('P27-z-list-json','P27','a position list of the Z dimension with a single entry, asked for through the C interface','the list is not reported',
 [(A+'parameterhelpers.cpp','''            if (z_dimension_info->TryGetPositionList(&positions))''','''            if (z_dimension_info->TryGetPositionList(&positions) && positions.size() > 1)''')],
 '''#define _LIBCZIAPISTATICLIB 1
#include "libCZIApi.h"
int main(){ auto f=std::make_shared<Mem>(); auto w=CreateCZIWriter(); w->Create(f,nullptr); Add(w,Tile{"C0Z0",0,0,0,4,4,4,4}); Meta(w,"<ImageDocument><Metadata><Information><Image><SizeZ>1</SizeZ><Dimensions><Z><Positions><List><Offsets>2.5</Offsets></List></Positions></Z></Dimensions></Image></Information></Metadata></ImageDocument>"); w->Close();
 FILE* o=fopen("a.czi","wb"); fwrite(f->d.data(),1,f->d.size(),o); fclose(o);
 InputStreamObjectHandle s; if(libCZI_CreateInputStreamFromFileUTF8("a.czi",&s)) return fail("stream"); CziReaderObjectHandle r; libCZI_CreateReader(&r); ReaderOpenInfoInterop oi; oi.streamObject=s; if(libCZI_ReaderOpen(r,&oi)) return fail("open"); MetadataSegmentObjectHandle m; if(libCZI_ReaderGetMetadataSegment(r,&m)) return fail("seg"); CziDocumentInfoHandle d; if(libCZI_MetadataSegmentGetCziDocumentInfo(m,&d)) return fail("doc");
 void* j=nullptr; if(libCZI_CziDocumentInfoGetDimensionInfo(d,1,&j)||!j) return fail("dimension info"); return strstr((const char*)j,"2.5")?0:fail("the position list is missing"); }''')
