import sys; sys.path.insert(0,'/verif/tools'); from seed import mk
S='Src/libCZI/'
mk('P01-functor-overrun','P01','a data callback that, on its second or later call, offers more bytes than are still missing','the surplus bytes are stored and shift metadata/data/attachment of the subblock',
 [(S+'CziWriter.cpp','(std::min)(size - offset, sizeData);','(std::min)(size, sizeData);')],
 '''int main(){ auto f=std::make_shared<Mem>(); auto w=CreateCZIWriter(); w->Create(f,nullptr);
 std::vector<uint8_t> d(10,7), at(5,9); AddSubBlockInfo s; s.Clear(); s.coordinate=Coord("C0"); s.mIndexValid=true; s.mIndex=0; s.logicalWidth=s.physicalWidth=5; s.logicalHeight=s.physicalHeight=2; s.PixelType=PixelType::Gray8; s.SetCompressionMode(CompressionMode::UnCompressed);
 s.sizeData=10; s.getData=[&](int,size_t off,const void*& p,size_t& n){ p=d.data(); n=off==0?6:10; return true; };
 s.sizeAttachment=5; s.getAttachment=[&](int,size_t,const void*& p,size_t& n){ p=at.data(); n=5; return true; };
 w->SyncAddSubBlock(s); w->Close(); auto r=Open(f); auto sb=r->ReadSubBlock(0); size_t n; auto p=sb->GetRawData(ISubBlock::Attachment,&n);
 if(n!=5||std::memcmp(p.get(),at.data(),5)) return fail("attachment altered"); return 0; }''')
mk('P02-metadata-reuse','P02','metadata written a second time with a smaller size (or into a reservation)','the allocated size of the metadata segment shrinks, so the segment chain has a gap',
 [(S+'CziWriter.cpp','''        metadataSegmentPos = info.existingSegmentPos;
        ms.header.AllocatedSize = info.sizeExistingSegmentPos;''','''        metadataSegmentPos = info.existingSegmentPos;''')],
 '''int main(){ auto f=std::make_shared<Mem>(); auto w=CreateCZIWriter(); w->Create(f,nullptr); Meta(w,std::string(900,'a')); Meta(w,"<x/>"); Add(w,Tile{"C0",0,0,0,2,2,2,2}); w->Close();
 size_t p=0; while(p+32<=f->d.size()){ if(std::memcmp(&f->d[p],"ZISRAW",6)&&std::memcmp(&f->d[p],"DELETED",7)) return fail("no segment where the chain says there is one"); uint64_t a; std::memcpy(&a,&f->d[p+16],8); p+=32+a; } return p==f->d.size()?0:fail("chain does not end at the end"); }''')
mk('P03-append-over-attachment','P03','editing a document whose last segment is an attachment added in an earlier editing session (directories fitted into their old places)','the next added item overwrites the attachment',
 [(S+'CziReaderWriter.cpp','if (static_cast<uint64_t>(attEntry.FilePosition) > lastSegmentPos)','if (static_cast<uint64_t>(attEntry.FilePosition) > lastSegmentPos && !this->hdrSegmentData.GetIsAttachmentDirectoryPositionValid())')],
 '''int main(){ auto f=std::make_shared<Mem>(); auto w=CreateCZIWriter(); auto i=std::make_shared<CCziWriterInfo>(GUID{1,2,3,{4,5,6,7,8,9,10,11}}); i->SetReservedSizeForAttachmentsDirectory(true,8); i->SetReservedSizeForSubBlockDirectory(true,8); w->Create(f,i); Add(w,Tile{"C0",0,0,0,2,2,2,2}); AddAtt(w,1,"a","first"); w->Close();
 { auto e=CreateCZIReaderWriter(); e->Create(f); AddAtt(e,2,"b","second"); e->Close(); }
 { auto e=CreateCZIReaderWriter(); e->Create(f); AddAtt(e,3,"c","third"); e->Close(); }
 try { auto r=Open(f); if(r->GetAttachmentCount()!=3) return fail("count"); for(int k=0;k<3;++k){ auto a=r->ReadAttachment(k); size_t n; auto p=a->GetRawData(&n); std::string s((const char*)p.get(),n); if(s!=(a->GetAttachmentInfo().name=="a"?"first":a->GetAttachmentInfo().name=="b"?"second":"third")) return fail("attachment clobbered"); } } catch(std::exception& x){ return fail(x.what()); } return 0; }''')
mk('P04-early-directory','P04','the process stops while a subblock is being written to a document with a reserved subblock directory','header and directory already list the subblock whose bytes are not in the file',
 [(S+'CziWriter.cpp','''    this->WriteSubBlkDirectory();
    this->WriteAttachmentDirectory();

    FileHeaderData fhd;''','''    FileHeaderData early;
    early.Clear();
    early.primaryFileGuid = this->info->GetFileGuid();
    this->WriteSubBlkDirectory();
    if (this->attachmentDirectorySegment.IsValid() && this->attachmentDirectory.GetAttachmentCount() > 0)
    {
        early.subBlockDirectoryPosition = this->subBlockDirectorySegment.GetFilePos();
        early.attachmentDirectoryPosition = this->attachmentDirectorySegment.GetFilePos();
        this->WriteFileHeader(early);
    }

    this->WriteAttachmentDirectory();

    FileHeaderData fhd;'''),
  (S+'CziWriter.cpp','''    AttachmentDirectorySegment ads{};

    memcpy(ads.header.Id, CCZIParse::DELETEDSEGMENTMAGIC, 16);''','''    AttachmentDirectorySegment ads{};

    memcpy(ads.header.Id, CCZIParse::ATTACHMENTSDIRMAGC, 16);
    ads.data.EntryCount = static_cast<int>(s);''')],
 '''int main(){ auto f=std::make_shared<Mem>(); f->log=true; auto w=CreateCZIWriter(); auto i=std::make_shared<CCziWriterInfo>(GUID{1,2,3,{4,5,6,7,8,9,10,11}}); i->SetReservedSizeForAttachmentsDirectory(true,1); w->Create(f,i); Add(w,Tile{"C0",0,0,0,2,2,2,2}); AddAtt(w,1,"att","hello"); w->Close();
 for(size_t k=0;k<f->writes.size();++k) for(int t=0;t<2;++t){ auto g=std::make_shared<Mem>(); for(size_t j=0;j<=k;++j) g->Write(f->writes[j].first,f->writes[j].second.data(),j<k?f->writes[j].second.size():t*f->writes[j].second.size()/4,nullptr);
  try { auto r=Open(g); bool bad=false; int gs=0; r->EnumerateAttachments([&](int,const AttachmentInfo& a){ if(a.name!="att") bad=true; return true; }); if(bad) return fail("an attachment nobody wrote is presented after a crash"); } catch(std::exception&){} }
 return 0; }''')
mk('P05-short-write-header','P05','the stream accepts only a part of the bytes of the final file header (e.g. disk full) ','Close reports success although the header was not written',
 [(S+'CziWriter.cpp','''    if (bytesWritten != size)
    {
        CCziWriter::ThrowNotEnoughDataWritten(offset, size, bytesWritten);''','''    if (bytesWritten != size && ptrBytesWritten != nullptr)
    {
        CCziWriter::ThrowNotEnoughDataWritten(offset, size, bytesWritten);''')],
 '''int main(){ auto f=std::make_shared<Mem>(); auto w=CreateCZIWriter(); w->Create(f,nullptr); Add(w,Tile{"C0",0,0,0,2,2,2,2}); int n=f->n; f->log=true; 
 for(int k=n;k<n+20;++k){ auto g=std::make_shared<Mem>(); auto v=CreateCZIWriter(); v->Create(g,nullptr); Add(v,Tile{"C0",0,0,0,2,2,2,2}); g->shortAt=k; bool thrown=false; try{ v->Close(); }catch(std::exception&){ thrown=true; } if(g->n>k && !thrown) return fail("short write not reported"); }
 return 0; }''')
mk('P06-scene-box-order','P06','a scene whose first subblock in the directory is a pyramid tile','the layer-0 bounding box of the scene includes the pyramid tile, depending on the order of subblocks',
 [(S+'CziSubBlockDirectory.cpp','''            if (entry.IsStoredSizeEqualLogicalSize() == true)
            {
                boundingBoxes.boundingBoxLayer0 = boundingBoxes.boundingBox;
            }
            else
            {
                boundingBoxes.boundingBoxLayer0.Invalidate();
            }
''','''            boundingBoxes.boundingBoxLayer0 = boundingBoxes.boundingBox;
''')],
 '''int main(){ for(int k=0;k<2;++k){ auto r=Open(WriteTiles({Tile{"C0S0",k,0,0,100,100,50,50},Tile{"C0S0",1-k,10,10,20,20,20,20}})); auto s=r->GetStatistics(); auto b=s.sceneBoundingBoxes[0].boundingBoxLayer0; if(!(b.x==10&&b.y==10&&b.w==20&&b.h==20)) return fail("scene layer-0 box"); auto f=std::make_shared<Mem>(); auto w=CreateCZIWriter(); w->Create(f,nullptr); Add(w,Tile{"C0S0",0,0,0,100,100,50,50}); Add(w,Tile{"C0S0",1,10,10,20,20,20,20}); b=w->GetStatistics().sceneBoundingBoxes[0].boundingBoxLayer0; if(!(b.x==10&&b.y==10&&b.w==20&&b.h==20)) return fail("scene layer-0 box (writer)"); } return 0; }''')
mk('P07-early-stop','P07','a visitor of EnumSubset that stops at the first match','the enumeration goes on after the visitor asked to stop',
 [(S+'CziReaderCommon.cpp','''                        return funcEnum(index, info);
                    }
                }
            }

            return true;''','''                        const bool go_on = funcEnum(index, info);
                        if (!go_on && roi != nullptr)
                        {
                            return false;
                        }
                    }
                }
            }

            return true;''')],
 '''int main(){ auto r=Open(WriteTiles({Tile{"C0",0,0,0,4,4,4,4},Tile{"C0",1,10,10,20,20,20,20}})); int n=0; auto c=Coord("C0"); r->EnumSubset(&c,nullptr,false,[&](int,const SubBlockInfo&){ ++n; return false; }); return n==1?0:fail("visitor called again"); }''')
mk('P08-frame-origin','P08','a document in which a pyramid tile extends beyond the layer-0 bounding box','pixel->raw conversion uses the wrong origin and is no longer the inverse of raw->pixel',
 [(S+'CZIReader.cpp','{source_point.point.x + statistics.boundingBoxLayer0Only.x, source_point.point.y + statistics.boundingBoxLayer0Only.y} };','{source_point.point.x + statistics.boundingBox.x, source_point.point.y + statistics.boundingBox.y} };')],
 '''int main(){ auto r=Open(WriteTiles({Tile{"C0",0,10,10,20,20,20,20},Tile{"C0",1,0,0,64,64,32,32}})); auto q=r->TransformPoint(IntPointAndFrameOfReference{CZIFrameOfReference::PixelCoordinateSystem,IntPoint{3,4}},CZIFrameOfReference::RawSubBlockCoordinateSystem); return q.point.x==13&&q.point.y==14?0:fail("conversion"); }''')
mk('P25-writer-reuse','P25','one writer object used for a second document after a first one with attachments','attachments of the first document are listed in the second one',
 [(S+'CziWriter.cpp','''    this->attachmentDirectory = CWriterCziAttachmentsDirectory();
    this->metadataSegment.Invalidate();''','''    this->metadataSegment.Invalidate();''')],
 '''int main(){ auto f=std::make_shared<Mem>(), g=std::make_shared<Mem>(); auto w=CreateCZIWriter(); w->Create(f,nullptr); Add(w,Tile{"C0",0,0,0,2,2,2,2}); AddAtt(w,1,"a","x"); w->Close(); w->Create(g,nullptr); Add(w,Tile{"C0",0,0,0,2,2,2,2}); w->Close(); auto r=Open(g); return r->GetAttachmentCount()==0?0:fail("attachments leaked into another document"); }''')
