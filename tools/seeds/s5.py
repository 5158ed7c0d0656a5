import sys; sys.path.insert(0,'/verif/tools'); from seed import mk
S='Src/libCZI/'; A='Src/libCZIAPI/src/'
DI='''static std::shared_ptr<ICziMultiDimensionDocumentInfo> Doc(const std::string& xml){ auto f=std::make_shared<Mem>(); auto w=CreateCZIWriter(); w->Create(f,nullptr); Add(w,Tile{"C0",0,0,0,4,4,4,4}); Meta(w,"<ImageDocument><Metadata>"+xml+"</Metadata></ImageDocument>"); w->Close(); auto r=Open(f); return r->ReadMetadataSegment()->CreateMetaFromMetadataSegment()->GetDocumentInfo(); }
'''
mk('P27-start-only','P27','a metadata document which states the start of a dimension but not its size','the dimension is not reported',
 [(S+'CziMetadataDocumentInfo.cpp','if (!nStart.empty() || !nSize.empty())','if (!nSize.empty())')],
 DI+'''int main(){ auto d=Doc("<Information><Image><StartT>5</StartT></Image></Information>"); auto t=d->GetDimensionInfo(DimensionIndex::T); if(!t) return fail("dimension T not reported"); int s=0; t->GetInterval(&s,nullptr); return s==5?0:fail("wrong start"); }''')
mk('P27-range-tail','P27','an exposure-time range which is followed by further characters','a malformed range is reported as a valid one',
 [(S+'CziMetadataDocumentInfo2.cpp','''                    uint64_t end = std::stoull(str.c_str() + s + 1, &s2, 10);
                    if (1 + s + s2 == str.length())''','''                    uint64_t end = std::stoull(str.c_str() + s + 1, &s2, 10);
                    if (1 + s + s2 <= str.length())''')],
 DI+'''int main(){ auto d=Doc("<Information><Image><Dimensions><Channels><Channel Id=\\"Channel:0\\"><ExposureTime>10-20-30</ExposureTime></Channel></Channels></Dimensions></Image></Information>"); RangeOrSingleValue<uint64_t> v; return d->GetDimensionChannelsInfo()->GetChannel(0)->TryGetExposureTime(&v)?fail("malformed range accepted"):0; }''')
mk('P27-interval-over-list','P27','a time dimension with positions given as a list','the list of time offsets is lost when the document also has a Z dimension list',
 [(S+'CziMetadataDocumentInfo.cpp','auto offsetsNode = GetNodeRelativeFromNode(dimTnode, L"Positions/List/Offsets");','auto offsetsNode = GetNodeRelativeFromNode(dimTnode.parent().first_child(), L"Positions/List/Offsets");')],
 DI+'''int main(){ auto d=Doc("<Information><Image><Dimensions><Z><Positions><List><Offsets>1 2</Offsets></List></Positions></Z><T><Positions><List><Offsets>5 6 7</Offsets></List></Positions></T></Dimensions></Image></Information>"); std::vector<double> l; auto t=d->GetDimensionTInfo(); if(!t->TryGetOffsetsList(&l)) return fail("no list"); return l.size()==3&&l[0]==5?0:fail("wrong list"); }''')
mk('P27-list-nan','P27','writing a list of positions which ends with an infinite value','the infinite value is written',
 [(S+'CziMetadataBuilder.cpp','''            double v = funcGetOffsets(i);
            if (isnan(v) || isinf(v))
            {
                break;
            }

            if (i > 0)
            {
                ss << ' ';
            }

            ss << std::setprecision(numeric_limits<double>::digits10) << v;
        }

        builder->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Dimensions/Z/Positions/List/Offsets")''','''            double v = funcGetOffsets(i);
            if (isnan(v) || isinf(v))
            {
                break;
            }

            if (i > 0)
            {
                ss << ' ';
            }

            ss << v;
        }

        builder->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Dimensions/Z/Positions/List/Offsets")''')],
 '''#include "libCZI_Metadata.h"
int main(){ auto b=CreateMetadataBuilder(); MetadataUtils::WriteDimInfoZ_List(b.get(),1,[](int i){ return i==0?1.23456789:std::numeric_limits<double>::infinity(); }); auto x=b->GetXml(false); return x.find("1.23456789")!=std::string::npos?0:fail("offset not written with its digits"); }''')
mk('P27-averaging-mode','P27','laser-scan information with an averaging mode','the averaging mode is read from the element of the averaging method',
 [(S+'CziMetadataDocumentInfo2.cpp','SetEnumIfPresentAndValid(node, L"AveragingMode",','SetEnumIfPresentAndValid(node, node.child(L"ScanSpeed") ? L"AveragingMethod" : L"AveragingMode",')],
 DI+'''int main(){ auto d=Doc("<Information><Image><Dimensions><Channels><Channel Id=\\"Channel:0\\"><LaserScanInfo><ScanSpeed>3</ScanSpeed><AveragingMode>Line</AveragingMode></LaserScanInfo></Channel></Channels></Dimensions></Image></Information>"); DimensionChannelLaserScanAveragingMode m; if(!d->GetDimensionChannelsInfo()->GetChannel(0)->GetLaserScanInfo()->TryGetAveragingMode(&m)) return fail("averaging mode not reported"); return 0; }''')
mk('P23-dims-terminator','P23','a buffer for exactly as many dimensions as there are','the terminating entry is written beyond the end of the buffer',
 [(A+'libCZIApi.cpp','if (available_dimensions_count < available_dimensions_data.size() + 1)','if (available_dimensions_count < available_dimensions_data.size())')],
 '''#define _LIBCZIAPISTATICLIB 1
#include "libCZIApi.h"
int main(){ auto f=std::make_shared<Mem>(); auto w=CreateCZIWriter(); w->Create(f,nullptr); Add(w,Tile{"C0",0,0,0,4,4,4,4}); Meta(w,"<ImageDocument><Metadata><Information><Image><SizeC>1</SizeC><SizeT>2</SizeT></Image></Information></Metadata></ImageDocument>"); w->Close();
 FILE* o=fopen("a.czi","wb"); fwrite(f->d.data(),1,f->d.size(),o); fclose(o);
 InputStreamObjectHandle s; if(libCZI_CreateInputStreamFromFileUTF8("a.czi",&s)) return fail("stream"); CziReaderObjectHandle r; libCZI_CreateReader(&r); ReaderOpenInfoInterop oi; oi.streamObject=s; if(libCZI_ReaderOpen(r,&oi)) return fail("open"); MetadataSegmentObjectHandle m; if(libCZI_ReaderGetMetadataSegment(r,&m)) return fail("seg"); CziDocumentInfoHandle d; if(libCZI_MetadataSegmentGetCziDocumentInfo(m,&d)) return fail("doc");
 uint32_t buf[4]={7,7,7,7}; libCZI_CziDocumentInfoGetAvailableDimension(d,2,buf); return buf[2]==7&&buf[3]==7?0:fail("wrote beyond the buffer"); }''')
mk('P23-attachment-size','P23','getting the data of an attachment into a buffer which is too small','the size reported is that of the buffer, not that of the attachment',
 [(A+'libCZIApi.cpp','''        const auto raw_data = shared_attachment_wrapping_object->shared_ptr_->GetRawData(&actual_size);
        *size = actual_size;''','''        const auto raw_data = shared_attachment_wrapping_object->shared_ptr_->GetRawData(&actual_size);
        *size = data != nullptr ? min(size_of_destination, actual_size) : actual_size;''')],
 '''#define _LIBCZIAPISTATICLIB 1
#include "libCZIApi.h"
int main(){ auto f=std::make_shared<Mem>(); auto w=CreateCZIWriter(); w->Create(f,nullptr); Add(w,Tile{"C0",0,0,0,4,4,4,4}); AddAtt(w,1,"a","hello world"); w->Close(); FILE* o=fopen("a.czi","wb"); fwrite(f->d.data(),1,f->d.size(),o); fclose(o);
 InputStreamObjectHandle s; if(libCZI_CreateInputStreamFromFileUTF8("a.czi",&s)) return fail("stream"); CziReaderObjectHandle r; libCZI_CreateReader(&r); ReaderOpenInfoInterop oi; oi.streamObject=s; if(libCZI_ReaderOpen(r,&oi)) return fail("open"); AttachmentObjectHandle a; if(libCZI_ReaderReadAttachment(r,0,&a)) return fail("att");
 char b[8]; uint64_t n=4; if(libCZI_AttachmentGetRawData(a,&n,b)) return fail("raw"); return n==11?0:fail("size of the attachment not reported"); }''')
mk('P06-layer-order','P06','a scene with several pyramid layers of factor three, the coarser of which are met first','the pyramid layers are not listed from finest to coarsest',
 [(S+'CziSubBlockDirectory.cpp','return minificationFactorA < minificationFactorB;','return a.layerInfo.minificationFactor < b.layerInfo.minificationFactor;')],
 '''int main(){ std::vector<Tile> t; int k=1; for(int i=0;i<5;++i) k*=2; for(int L=5;L>=0;--L,k/=2){ t.push_back(Tile{"C0S0",5-L,(5-L)*1000,0,k*4,k*4,4,4}); } auto e=CreateCZIReaderWriter(); e->Create(std::make_shared<Mem>(),nullptr); for(auto& x:t) Add(e,x); auto p=e->GetPyramidStatistics(); for(auto& s:p.scenePyramidStatistics){ int last=-1; for(auto& l:s.second){ int n=l.layerInfo.pyramidLayerNo; if(l.layerInfo.IsNotIdentifiedAsPyramidLayer()) continue; if(n<last) return fail("layers not in order"); last=n; } } return 0; }''')
mk('P11-null-options','P11','composing tiles directly at a position other than the origin without options','tiles are placed without the position of the destination',
 [(S+'SingleChannelTileCompositor.cpp','ComposeSingleChannelTiles(getTiles, dest, xPos, yPos, &options);','ComposeSingleChannelTiles(getTiles, dest, xPos, xPos, &options);')],
 '''int main(){ auto site=GetDefaultSiteObject(SiteObjectType::Default); auto d=site->CreateBitmap(PixelType::Gray8,4,4), t=site->CreateBitmap(PixelType::Gray8,1,1); { ScopedBitmapLockerSP l(d); for(int y=0;y<4;++y) memset((char*)l.ptrDataRoi+y*l.stride,0,4); ScopedBitmapLockerSP m(t); *(uint8_t*)m.ptrDataRoi=9; }
 Compositors::ComposeSingleChannelTiles([&](int i,std::shared_ptr<IBitmapData>& s,int& x,int& y){ s=t; x=11; y=22; return i==0; },d.get(),10,20,nullptr); ScopedBitmapLockerSP l(d); return ((uint8_t*)l.ptrDataRoi)[2*l.stride+1]==9?0:fail("tile misplaced"); }''')
mk('P19-resize-roi','P19','resizing a part of a bitmap which is not square','the height of the source part is taken from its width',
 [(S+'libCZI_Utilities.cpp','resizeInfo.srcRoiH = roiSrc.h;','resizeInfo.srcRoiH = roiSrc.y > 0 ? roiSrc.w : roiSrc.h;')],
 '''int main(){ auto site=GetDefaultSiteObject(SiteObjectType::Default); auto s=site->CreateBitmap(PixelType::Gray8,8,16); { ScopedBitmapLockerSP l(s); for(int y=0;y<16;++y) memset((char*)l.ptrDataRoi+y*l.stride,y,8); } auto d=Utils::NearestNeighborResize(s.get(),4,4,DblRect{0,4,4,12},DblRect{0,0,4,4}); ScopedBitmapLockerSP l(d); int v=((uint8_t*)l.ptrDataRoi)[3*l.stride]; return v>=12?0:fail("wrong source row"); }''')
mk('P06-prep-size-m','P06','subblocks whose tile indices do not start at zero','the metadata prepared by the writer states a wrong number of tiles',
 [(S+'CziMetadataBuilder.cpp','statistics.maxMindex - statistics.minMindex + 1','statistics.minMindex > 1 ? statistics.maxMindex + 1 : statistics.maxMindex - statistics.minMindex + 1')],
 '''#include "libCZI_Metadata.h"
int main(){ auto f=std::make_shared<Mem>(); auto w=CreateCZIWriter(); w->Create(f,nullptr); Add(w,Tile{"C0",5,0,0,4,4,4,4}); Add(w,Tile{"C0",7,9,0,4,4,4,4}); PrepareMetadataInfo i; auto x=w->GetPreparedMetadata(i)->GetXml(false); return x.find("<SizeM>3</SizeM>")!=std::string::npos?0:fail("wrong number of tiles"); }''')
