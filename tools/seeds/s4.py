import sys; sys.path.insert(0,'/verif/tools'); from seed import mk
S='Src/libCZI/'
FILEATT='''static std::shared_ptr<Mem> withAtt(){ auto f=std::make_shared<Mem>(); auto w=CreateCZIWriter(); w->Create(f,nullptr); Add(w,Tile{"C0",0,0,0,4,4,4,4}); AddAtt(w,1,"a","hello"); Meta(w,"<ImageDocument/>"); w->Close(); return f; }
static uint64_t findSeg(const std::vector<uint8_t>& d,const char* id){ for(uint64_t o=0;o+32<=d.size();o+=32){ char b[16]={0}; std::strncpy(b,id,16); if(!std::memcmp(d.data()+o,b,16)) return o; } return ~0ull; }
template<class T> static T rd(const std::vector<uint8_t>& d,uint64_t o){ T t; std::memcpy(&t,d.data()+o,sizeof t); return t; }
template<class T> static void wr(std::vector<uint8_t>& d,uint64_t o,T t){ std::memcpy(d.data()+o,&t,sizeof t); }
'''
mk('P09-magic-prefix','P09','a directory entry of a damaged file which points at a segment whose id merely starts like the expected one','reading the attachment succeeds and returns bytes of the attachment directory',
 [(S+'CziParse.cpp','memcmp(attchmntSegment.header.Id, CCZIParse::ATTACHMENTBLKMAGIC, 16)','memcmp(attchmntSegment.header.Id, CCZIParse::ATTACHMENTBLKMAGIC, 9)')],
 FILEATT+'''int main(){ auto f=withAtt(); uint64_t dir=findSeg(f->d,"ZISRAWATTDIR"); wr<int64_t>(f->d,dir+32+256+12,(int64_t)dir); auto r=Open(f); try{ auto a=r->ReadAttachment(0); if(a) return fail("an attachment was delivered from a segment that is not an attachment"); }catch(std::exception&){ } return 0; }''')
mk('P09-meta-att-short','P09','a truncated or damaged metadata segment (size of its attachment part exceeds the file)','reading succeeds and delivers uninitialised memory',
 [(S+'CziParse.cpp','if (static_cast<int32_t>(bytesRead) != metadataSegment.data.AttachmentSize)','if (static_cast<int32_t>(bytesRead) > metadataSegment.data.AttachmentSize)')],
 FILEATT+'''int main(){ auto f=withAtt(); uint64_t m=findSeg(f->d,"ZISRAWMETADATA"); wr<int32_t>(f->d,m+36,10000000); auto r=Open(f); try{ auto a=r->ReadMetadataSegment(); if(a) return fail("metadata segment with an attachment beyond the end of the file was delivered"); }catch(std::exception&){ } return 0; }''')
mk('P09-xml-offset','P09','metadata segment of a file with XML and an attachment part, cut within the XML','reading succeeds with less than the announced XML',
 [(S+'CziParse.cpp','if (static_cast<int32_t>(bytesRead) != metadataSegment.data.XmlSize)','if (bytesRead == 0 && metadataSegment.data.XmlSize != 0)')],
 FILEATT+'''int main(){ auto f=withAtt(); uint64_t m=findSeg(f->d,"ZISRAWMETADATA"); wr<int32_t>(f->d,m+32,1000000); auto r=Open(f); try{ auto a=r->ReadMetadataSegment(); if(a) return fail("metadata segment with XML beyond the end of the file was delivered"); }catch(std::exception&){ } return 0; }''')
mk('P10-stored-zero','P10','strict parsing of a directory entry with a stored size of zero for a dimension','a non-conforming file is accepted',
 [(S+'CziParse.cpp','if(physicalSize != 1)','if(physicalSize > 1)')],
 FILEATT+'''int main(){ auto f=withAtt(); uint64_t dir=findSeg(f->d,"ZISRAWDIRECTORY"); uint64_t e=dir+32+128; int n=rd<int32_t>(f->d,e+28); bool done=false; for(int i=0;i<n;++i){ uint64_t o=e+32+20*i; if(f->d[o]=='C'){ wr<int32_t>(f->d,o+16,0); done=true; } } if(!done) return fail("setup"); 
 ICZIReader::OpenOptions oo; oo.SetDefault(); oo.lax_subblock_coordinate_checks=false; oo.ignore_sizem_for_pyramid_subblocks=false; auto r=CreateCZIReader(); try{ r->Open(f,&oo); return fail("non-conforming file accepted by a strict reader"); }catch(std::exception&){ } return 0; }''')
mk('P10-mindex-presence','P10','the M index is present only in the directory, not in the subblock header','the discrepancy is not reported',
 [(S+'CZIReader.cpp','(Utils::IsValidMindex(entry.mIndex) != Utils::IsValidMindex(subBlkData.mIndex) || (Utils::IsValidMindex(subBlkData.mIndex) && entry.mIndex != subBlkData.mIndex)) ||','(Utils::IsValidMindex(subBlkData.mIndex) && entry.mIndex != subBlkData.mIndex) ||')],
 FILEATT+'''int main(){ auto f=withAtt(); uint64_t sb=findSeg(f->d,"ZISRAWSUBBLOCK"); uint64_t e=sb+32+16; int n=rd<int32_t>(f->d,e+28); bool done=false; for(int i=0;i<n;++i){ uint64_t o=e+32+20*i; if(f->d[o]=='M'){ f->d[o]='H'; done=true; } } if(!done) return fail("setup"); uint64_t dir=findSeg(f->d,"ZISRAWDIRECTORY"); (void)dir;
 // make the coordinates agree: add H0 to the directory is not possible in place, so drop the M dimension from the header instead
 for(int i=0;i<n;++i){ uint64_t o=e+32+20*i; if(f->d[o]=='H'){ for(int k=i;k+1<n;++k) std::memmove(f->d.data()+e+32+20*k,f->d.data()+e+32+20*(k+1),20); break; } } wr<int32_t>(f->d,e+28,n-1);
 ICZIReader::OpenOptions oo; oo.SetDefault(); auto r=CreateCZIReader(); r->Open(f,&oo); try{ r->ReadSubBlock(0); return fail("discrepancy between directory and subblock header not reported"); }catch(std::exception&){ } return 0; }''')
mk('P17-header-bits','P17','a zstd1 header with reserved bits set','data which is not hi-lo packed is unpacked as if it were',
 [(S+'decoder_zstd.cpp','retVal.hiLoByteUnpackPreprocessing = ((*(ptrData + 2)) & 1) == 1;','retVal.hiLoByteUnpackPreprocessing = *(ptrData + 2) != 0;')],
 '''#include "decoder_zstd.h"
#include <zstd.h>
int main(){ std::vector<uint16_t> px(16); for(int i=0;i<16;++i) px[i]=(uint16_t)(i*1000+7); std::vector<uint8_t> z(3+ZSTD_compressBound(32)); z[0]=3; z[1]=1; z[2]=2; size_t n=ZSTD_compress(z.data()+3,z.size()-3,px.data(),32,3); auto d=libCZI::detail::CZstd1Decoder::Create(); PixelType pt=PixelType::Gray16; uint32_t w=4,h=4; auto b=d->Decode(z.data(),n+3,&pt,&w,&h,nullptr); ScopedBitmapLockerSP l(b); for(int y=0;y<4;++y) if(std::memcmp((const uint8_t*)l.ptrDataRoi+y*l.stride,px.data()+4*y,8)) return fail("pixels differ"); return 0; }''')
mk('P17-short-last-row','P17','uncompressed data which ends within a row','the rest of the row is not zero',
 [(S+'CreateBitmap.cpp','std::memset(destination + copy_size, 0, static_cast<size_t>(stride) - copy_size);','std::memset(destination + copy_size, 0, (static_cast<size_t>(stride) - copy_size) / 2);')],
 '''#include <malloc.h>
int main(){ mallopt(M_PERTURB,0x55); auto f=std::make_shared<Mem>(); auto w=CreateCZIWriter(); w->Create(f,nullptr); Tile t{"C0",0,0,0,40,4,40,4}; std::vector<uint8_t> d(40*2+10,7); w->SyncAddSubBlock(Info(t,d)); w->Close(); auto r=Open(f); auto s=r->ReadSubBlock(0); auto b=CreateBitmapFromSubBlock(s.get()); ScopedBitmapLockerSP l(b); for(int y=0;y<4;++y) for(int x=0;x<40;++x) if(((const uint8_t*)l.ptrDataRoi)[y*l.stride+x]!=(y*40+x<90?7:0)) return fail("missing pixels are not zero"); return 0; }''')
mk('P18-compare-invalid','P18','comparing coordinates where a dimension is missing in the first one','the ordering is not antisymmetric',
 [(S+'libCZI_Utilities.cpp','''        else if (valida == false && validb == true)
        {
            return -1;
        }''','''        else if (valida == false && validb == true && coord2 != 0)
        {
            return -1;
        }''')],
 '''int main(){ CDimCoordinate a=CDimCoordinate::Parse("T1"), b=CDimCoordinate::Parse("C0T1"); return Utils::Compare(&a,&b)==-Utils::Compare(&b,&a)&&Utils::Compare(&a,&b)!=0?0:fail("comparison inconsistent"); }''')
mk('P18-leap-year','P18','the 29th of February of a year divisible by 400','a valid date is rejected',
 [(S+'CziMetadataBuilder.cpp','|| (this->year % 400 == 0)','|| (this->year % 1000 == 0)')],
 '''#include "libCZI_Metadata.h"
int main(){ XmlDateTime t; if(!XmlDateTime::TryParse("2400-02-29T10:20:30",&t)) return fail("valid date rejected"); return XmlDateTime::TryParse("3000-02-29T10:20:30",&t)?fail("invalid date accepted"):0; }''')
mk('P19-decimate3','P19','decimation with a neighbourhood of three and an unset pixel at distance three on one side','a pixel stays set although its neighbourhood is not set',
 [(S+'BitmapOperationsBitonal.cpp','(value << 3) & (value >> 1) & (value >> 2) & (value >> 3);','(value << 3) & (value >> 1) & (value >> 2);')],
 '''#include "BitmapOperationsBitonal.h"
int main(){ for(int z=0;z<64;++z){ std::vector<uint8_t> s(8,0xff), d(4,0); s[z/8]&=~(0x80>>(z%8)); libCZI::detail::BitmapOperationsBitonal::BitonalDecimate(3,s.data(),8,64,1,d.data(),4,32,1); for(int x=0;x<32;++x){ bool e=true; for(int k=2*x-3;k<=2*x+3;++k) if(k==z) e=false; bool a=(d[x/8]>>(7-x%8))&1; if(a!=e) return fail("decimated pixel wrong"); } } return 0; }''')
mk('P20-weight-green','P20','weighted composition of more than one channel to Bgra32','the second channel is added to green without its weight',
 [(S+'MultiChannelCompositor.cpp','''        const int bytesPerPel = 4;
        explicit CAddWithWeightRgba(float weight) : CStoreWithWeightBase(weight) {}
        void operator ()(uint8_t* ptrDst, const bgr8& val) const
        {
            int p = *(ptrDst + 0);
            *(ptrDst + 0) = static_cast<uint8_t>((std::min)(p + toInt(val.b * this->weight), 0xff));
            p = *(ptrDst + 1);
            *(ptrDst + 1) = static_cast<uint8_t>((std::min)(p + toInt(val.g * this->weight), 0xff));''','''        const int bytesPerPel = 4;
        explicit CAddWithWeightRgba(float weight) : CStoreWithWeightBase(weight) {}
        void operator ()(uint8_t* ptrDst, const bgr8& val) const
        {
            int p = *(ptrDst + 0);
            *(ptrDst + 0) = static_cast<uint8_t>((std::min)(p + toInt(val.b * this->weight), 0xff));
            p = *(ptrDst + 1);
            *(ptrDst + 1) = static_cast<uint8_t>((std::min)(p + val.g, 0xff));''')],
 '''static std::shared_ptr<IBitmapData> mkb(uint8_t v){ auto f=WriteTiles({Tile{"C0",0,0,0,2,2,2,2,PixelType::Gray8,v}}); auto s=Open(f)->ReadSubBlock(0); return s->CreateBitmap(); }
int main(){ auto a=mkb(40), b=mkb(40); Compositors::ChannelInfo ci[2]; for(auto& c:ci){ c.Clear(); c.whitePoint=1; } ci[0].weight=3; ci[1].weight=1; IBitmapData* src[2]={a.get(),b.get()}; auto d=Compositors::ComposeMultiChannel_Bgra32(0xff,2,src,ci); ScopedBitmapLockerSP l(d); auto p=(const uint8_t*)l.ptrDataRoi; return p[0]==p[1]&&p[1]==p[2]?0:fail("grey channels do not compose to grey"); }''')
mk('P20-white-only','P20','a channel with the default black point and a white point below one','the white point is ignored',
 [(S+'MultiChannelCompositor.cpp','if (channelInfo->blackPoint <= 0 && channelInfo->whitePoint >= 1)','if (channelInfo->blackPoint <= 0 && channelInfo->whitePoint >= 0.99f)')],
 '''static std::shared_ptr<IBitmapData> mkb(uint8_t v){ auto f=WriteTiles({Tile{"C0",0,0,0,2,2,2,2,PixelType::Gray8,v}}); auto s=Open(f)->ReadSubBlock(0); return s->CreateBitmap(); }
int main(){ auto a=mkb(253); Compositors::ChannelInfo c; c.Clear(); c.whitePoint=0.992f; IBitmapData* src[1]={a.get()}; auto d=Compositors::ComposeMultiChannel_Bgr24(1,src,&c); ScopedBitmapLockerSP l(d); return *(const uint8_t*)l.ptrDataRoi==255?0:fail("pixel above the white point is not white"); }''')
mk('P21-index-siblings','P21','an indexed path where siblings of other names lie in between','the wrong element is addressed',
 [(S+'XmlNodeWrapper.h','child_node = child_node.next_sibling(node_name.c_str());','child_node = child_node.next_sibling();')],
 '''#include "libCZI_Metadata.h"
int main(){ auto m=CreateMetadataBuilder(); auto r=m->GetRootNode(); r->AppendChildNode("A")->SetValue("1"); r->AppendChildNode("B")->SetValue("2"); r->AppendChildNode("A")->SetValue("3"); auto n=r->GetChildNode("A[1]"); std::wstring v; return n&&n->TryGetValue(&v)&&v==L"3"?0:fail("wrong element"); }''')
mk('P21-attr-prefix','P21','an attribute selector whose value is a prefix of the value of an earlier sibling','the wrong element is addressed',
 [(S+'XmlNodeWrapper.h','if (wcscmp(attribute.value(), it->second.c_str()) != 0)','if (wcsncmp(attribute.value(), it->second.c_str(), it->second.size()) != 0)')],
 '''#include "libCZI_Metadata.h"
int main(){ auto m=CreateMetadataBuilder(); auto r=m->GetRootNode(); auto x=r->AppendChildNode("A"); x->SetAttribute("Id","10"); x->SetValue("no"); x=r->AppendChildNode("A"); x->SetAttribute("Id","1"); x->SetValue("yes"); auto n=r->GetChildNode("A[Id=1]"); std::wstring v; return n&&n->TryGetValue(&v)&&v==L"yes"?0:fail("wrong element"); }''')
SB='''struct SB:ISubBlock{ std::vector<uint8_t> a; std::string x="<METADATA><AttachmentSchema><DataFormat>CHUNKCONTAINER</DataFormat></AttachmentSchema></METADATA>"; SubBlockInfo i{}; const SubBlockInfo& GetSubBlockInfo()const override{return i;} void DangerousGetRawData(MemBlkType t,const void*& p,size_t& s)const override{ if(t==MemBlkType::Attachment){p=a.data(); s=a.size();} else if(t==MemBlkType::Metadata){p=x.data(); s=x.size();} else {p=nullptr; s=0;} } std::shared_ptr<const void> GetRawData(MemBlkType t,size_t* s)const override{ const void* p; size_t z; DangerousGetRawData(t,p,z); if(s)*s=z; return std::shared_ptr<const void>(std::shared_ptr<void>(),p); } std::shared_ptr<IBitmapData> CreateBitmap(const CreateBitmapOptions*)override{return nullptr;} };
'''
mk('P22-one-byte-chunk','P22','a chunk with exactly one byte of payload at the end of the container','the chunk is not enumerated',
 [(S+'SubblockAttachmentAccessor.cpp','if (size_attachment_data < offset + 21)','if (size_attachment_data <= offset + 21)')],
 SB+'''int main(){ auto s=std::make_shared<SB>(); for(int c=0;c<2;++c){ for(int k=0;k<16;++k) s->a.push_back((uint8_t)(c+1)); uint32_t n=c==0?4:1; for(int k=0;k<4;++k) s->a.push_back((uint8_t)(n>>(8*k))); for(uint32_t k=0;k<n;++k) s->a.push_back(9); } auto m=CreateSubBlockMetadataFromSubBlock(s.get()); auto a=CreateSubBlockAttachmentAccessor(s,m); int n=0; a->EnumerateChunksInChunkContainer([&](int,const ISubBlockAttachmentAccessor::ChunkInfo&){ ++n; return true; }); return n==2?0:fail("chunk missing"); }''')
mk('P22-mask-size','P22','a mask whose stride is larger than needed and whose data end before the last row','a mask is delivered which reaches beyond its data',
 [(S+'SubblockAttachmentAccessor.cpp','size_t minimal_size = (mask_info.height - 1) * static_cast<size_t>(mask_info.stride) + minimal_stride;','size_t minimal_size = mask_info.height * static_cast<size_t>(minimal_stride);')],
 SB+'''int main(){ auto s=std::make_shared<SB>(); GUID g{ 0xCBE3EA67, 0x5BFC, 0x492B, { 0xA1, 0x6A, 0xEC, 0xE3, 0x78, 0x03, 0x14, 0x48 } }; auto put=[&](const void* p,size_t n){ s->a.insert(s->a.end(),(const uint8_t*)p,(const uint8_t*)p+n); }; put(&g,16); uint32_t v[5]={16+3,4,3,0,10}; put(v,20); put("abc",3); auto a=CreateSubBlockAttachmentAccessor(s,CreateSubBlockMetadataFromSubBlock(s.get())); try{ auto b=a->CreateBitonalBitmapFromMaskInfo(); if(b) return fail("mask with insufficient data delivered"); }catch(std::exception&){ } return 0; }''')
mk('P24-sequential','P24','a read whose offset agrees in the lower 32 bits with the end of the previous read','data from the wrong position is delivered',
 [(S+'StreamsLib/simplefileinputstream.h','            FILE* fp_;','            FILE* fp_;\n            std::uint32_t position_ = 0;///< Position after the last read, reads which are sequential do not need a seek.'),
  (S+'StreamsLib/simplefileinputstream.cpp','''    int r = fseeko(this->fp_, offset, SEEK_SET);
#endif''','''    int r = this->position_ != 0 && this->position_ == static_cast<std::uint32_t>(offset) ? 0 : fseeko(this->fp_, offset, SEEK_SET);
#endif'''),
  (S+'StreamsLib/simplefileinputstream.cpp','''    const std::uint64_t bytesRead = fread(pv, 1, static_cast<size_t>(size), this->fp_);''','''    const std::uint64_t bytesRead = fread(pv, 1, static_cast<size_t>(size), this->fp_);
    this->position_ = static_cast<std::uint32_t>(offset + bytesRead);''')],
 '''#include "libCZI_StreamsLib.h"
int main(){ { FILE* o=fopen("x","wb"); for(int i=0;i<200;++i) fputc(i,o); fseeko(o,(1ll<<32)+100,SEEK_SET); fputc(77,o); fclose(o); } StreamsFactory::CreateStreamInfo ci; ci.class_name="c_runtime_file_inputstream"; auto s=StreamsFactory::CreateStream(ci,std::string("x")); uint8_t b[100]; uint64_t n; s->Read(0,b,100,&n); if(n!=100) return fail("n"); s->Read((1ll<<32)+100,b,10,&n); return n==1&&b[0]==77?0:fail("wrong data"); }''')
mk('P26-clone-disabled','P26','cloning display settings of a disabled channel with a tinting colour','the tinting colour is lost',
 [(S+'CziDisplaySettings.cpp','if (disp->TryGetTintingColorRgb8(&pod.tintingColor))','if (pod.isEnabled && disp->TryGetTintingColorRgb8(&pod.tintingColor))')],
 '''int main(){ DisplaySettingsPOD p; ChannelDisplaySettingsPOD c; c.Clear(); c.isEnabled=false; c.weight=0.5f; c.gradationCurveMode=IDisplaySettings::GradationCurveMode::Linear; c.blackPoint=0; c.whitePoint=1; c.tintingMode=IDisplaySettings::TintingMode::Color; c.tintingColor=Rgb8Color{1,2,3}; p.channelDisplaySettings[0]=c; auto d=DisplaySettingsPOD::CreateIDisplaySettingSp(p); DisplaySettingsPOD q; IDisplaySettings::Clone(d.get(),q); return q.channelDisplaySettings[0].tintingMode==IDisplaySettings::TintingMode::Color&&q.channelDisplaySettings[0].tintingColor.b==3?0:fail("tinting lost"); }''')
