#!/usr/bin/env python3
# Writes known_findings.json: recorded (unrepaired) findings and the list of repairs in /repo.
import json, os, subprocess
here=os.path.dirname(os.path.abspath(__file__))
FIX={ # commit subject -> property
"save ToneCurve and RetouchInfo as ordered arrays":("C13","crs:ToneCurve and crs:RetouchInfo were loaded as rdf:Seq and saved as rdf:Bag"),
"keep fractions of seconds in dates":("C13","fractions of a second of a date were lost on save"),
"don't write duplicate attributes to named extensions":("C13","a saved xmp:extension/iXML:extension had rdf:parseType twice and could not be parsed"),
"read iTunes content ratings as they are written":("C13","iTunes:ContentRating was not read back in the form it is written"),
"don't lose text around comments and CDATA sections":("C07","text before a comment or CDATA section was lost"),
"don't swap width and height of thumbnails":("C07","xmpGImg:width and height were swapped"),
"save iTunes asset info as element":("C13","iTunes asset info was saved as an attribute and lost"),
"keep resource references that only have a manageUI":("C13","a stRef with only manageUI was dropped on save"),
"load structs that have a native text form":("C07","structs with a native text form written as XMP struct were not loaded"),
"report short writes of packet header and footer":("C10","a short write of the packet header or footer was reported as success"),
"merge documents that use different prefixes for unknown namespaces":("C17","merged properties of unknown namespaces ended up in the wrong namespace when prefixes differed"),
"keep namespaces apart that use the same prefix":("C05","two namespaces with the same prefix were mixed up (also C07, C13)"),
"load properties whose namespace is declared outside rdf:Description":("C07","properties whose namespace is declared on rdf:RDF or an inner element were lost"),
"address the default language of alternatives as x-default":("C15","the x-default item of a language alternative could not be addressed as listed"),
"list simple array items and item attributes of external properties":("C07","items of simple arrays of unknown namespaces were not listed"),
"create missing languages in external properties":("C15","setting a new language of an unknown-namespace alternative reported success but was lost"),
"require REPLACE to overwrite external properties":("C15","unknown-namespace properties were overwritten without REPLACE"),
"update and delete external properties held in attributes":("C15","edits of unknown-namespace properties held in attributes created a second copy"),
"nil dereference when setting a path in a named extension":("C09","SetPath into a named extension panicked"),
"read identifiers with scheme as written by Marshal":("C13","xmp:Identifier with scheme was not read back as written"),
"data race on node pool counters":("C01","unsynchronised counters of the shared node pool"),
"don't panic on language alternatives without default":("C09","language alternatives without default panicked"),
"don't panic on malformed language alternatives in JSON":("C09","malformed language alternative in JSON panicked"),
"don't panic on malformed array items":("C09","malformed array item panicked (nil deref in error text)"),
"scan packets larger than 64 kB":("C06","packets larger than 64 kB were not found"),
"find packets in all partitions of a stream into reads":("C06","packets were missed depending on chunk boundaries"),
"check packet magic within the packet only":("C06","slice out of range on short packets"),
"find fields of unknown structs written with rdf:Description":("C07","fields of unknown-namespace structs written as rdf:Description were not addressable"),
"don't panic on ID3 v2.3 recording dates":("C15","saving after an edit panicked with ID3 v2.3 recording dates"),
"don't clear xmpDM properties missing in iXML":("C15","a save after an edit cleared xmpDM properties when the document has an iXML model"),
"address model fields by their own namespace first":("C07","GetPath(riffinfo:source) returned the value of the dc:source field"),
"address model types based on AltString by language":("C07","riffinfo and qt language alternatives could not be read by language"),
"don't panic when reading extensions without index":("C09","GetPath of an extension array without index panicked"),
"read named extensions by their listed paths":("C07","listed paths of named extensions could not be read"),
"unwrap named extensions written with rdf:Description":("C07","named extensions written as rdf:Description were not found"),
"keep id3:isCompilation next to other xmpDM properties":("C07","id3:isCompilation was lost when other xmpDM properties exist"),
"read URIs written as rdf:resource":("C07","values written as rdf:resource were lost"),
"read default namespace declarations":("C07","elements in a default namespace were lost"),
"address fields of unknown structs by their own namespace first":("C07","fields of unknown structs with equal local names were mixed up"),
"read ID3 genre lists as they are written":("C13","id3:contentType with a comma or next to xmpDM:genre was duplicated on every restart"),
"don't overwrite properties with outdated copies of other models":("C15","edits of properties that exif, tiff or riff models keep copies of were reverted by the next listing or save"),
"don't lose track totals and line breaks of ID3 properties":("C13","id3:trackNumber 3/12 became 3 and line breaks in id3:unsynchronizedLyrics split items after save and restart"),
"don't lose languages of external properties in JSON":("C14","the x-default item of unknown-namespace alternatives was lost in JSON"),
"load arrays of arrays from JSON":("C14","arrays of arrays were saved as JSON but not loaded"),
"limit the depth of nested elements when reading XML":("C09","deeply nested elements exhausted the stack"),
"don't panic on huge array indexes when setting values":("C09","SetPath with a huge array index exhausted memory or panicked"),
"don't recurse endlessly on extensions written as attribute":("C09","listing an extension written as attribute recursed without end"),
"don't add a language twice when setting language alternatives":("C15","SetPath with default flags on a language alternative added a second entry of the same language and the new value stayed invisible"),
"don't overwrite array items without replace flag":("C15","SetPath without REPLACE overwrote items of arrays of known properties"),
"don't overwrite values with the delete flag":("C15","SetPath with only DELETE and a value overwrote simple known properties"),
"append values that equal the first item of a list":("C15","APPEND of a value equal to the first item of a list was ignored"),
"don't delete a namespace when its path is set to a value":("C15","SetPath of a bare namespace path to a value removed the namespace"),
"read and edit external arrays as a whole and keep their structure":("C15","paths of whole arrays, alternatives and items with structure of unknown properties read as empty and edits of them mixed text into structures"),
"delete values that cannot be parsed from an empty string":("C15","deleting a number, bool, date or other typed property was refused with a parse error"),
"don't bring back deleted items when growing arrays":("C15","growing a list made its previously deleted items visible again"),
"refuse paths that are not valid XML names":("C15","SetPath accepted names that cannot be written as XML, saved documents could not be loaded again"),
"create named extensions with namespace":("C15","an extension created by SetPath was listed with a path that does not address it and an empty one was added on failure"),
"address items of nested arrays":("C07","items of arrays of arrays could not be addressed by their listed path"),
"don't list deleted attributes":("C15","deleted properties held in attributes stayed listed"),
"list structured alternatives by index":("C07","several alternatives without language or with structure were listed with the same path"),
"save edited timecode values":("C15","an edit of a timecode was reverted by the next save"),
"keep part of compilation when syncing id3":("C15","any save of a document with an ID3 model cleared xmpDM:partOfCompilation"),
"don't divide by zero rates in iXML speed":("C09","saving or listing a document with an iXML timecode rate of zero panicked after an edit"),
"don't lose structured alternatives written as attributes in JSON":("C14","external alternatives of structures written in attribute form were saved as empty in JSON"),
"refuse invalid indexes before changing anything":("C15","a refused SetPath with an invalid inner index had already replaced outer values"),
"list start timecodes taken from iXML":("C15","xmpDM:startTimecode derived from iXML was listed without its value until the next restart"),
"save edited digitizing dates":("C15","an edit of exif:DateTimeDigitized was reverted by the next listing or save"),
"keep namespaces declared that fields of other properties use":("C16","after removing an unknown namespace, fields of kept properties in that namespace were listed and saved with an undeclared prefix"),
"don't bring back removed namespaces":("C16","properties of a removed or filtered namespace were listed and saved again from copies kept by native models (exif, tiff, riffinfo, pdf, id3, iXML)"),
"load JSON documents whose prefixes differ from the registered ones":("C17","a JSON save of merged documents could not be loaded when two prefixes stand for one namespace"),
"keep equal names of different namespaces apart in unknown structures":("C17","merging a field of an unknown structure set or was refused by a field of equal name in another namespace"),
"merge namespaces that only the registry knows under one prefix":("C17","merging gave one namespace two prefixes, the JSON save could not be loaded"),
"keep the default language when merging":("C17","merging language alternatives lost the default or refused it"),
"don't lose or refuse unknown iXML properties":("C07","unknown properties in the iXML namespace were lost on load, and written as attribute they made the whole load fail"),
"don't panic when syncing to a namespace without model":("C09","Document.Sync to a path in a namespace without model (stRef, stEvt, unknown) dereferenced a nil model"),
"keep text and arrays in named extensions":("C07","text and arrays directly below iXML:extension were lost on load and save"),
"refuse values for named extensions without name":("C15","SetPath(iXML:extension) created an element without name, saved data were not readable"),
"load JSON in a defined order":("C05","models and properties loaded from JSON were in random order, with effects on later listings (prefixes, left over namespaces)"),
"keep namespaces of new paths in their document":("C01","SetPath with PathValue.Namespace registered the namespace globally: a second document using the same prefix for another namespace wrote into the first one's, and naming a known namespace by another prefix replaced its registration (and model) for every document"),
"keep genre numbers beyond the ID3v1 range":("C07","a genre text that is a number above 255 (id3:contentType 1004) was read modulo 256 and written back as another number or the name of another genre"),
"save pointers to types that marshal with pointer receivers":("C13","a value behind a pointer to a type whose MarshalXMP has a pointer receiver was saved without it"),
"read arrays that have no methods of their own":("C13","a plain slice property was saved and not read back"),
"read all values of SplitInt":("C13","a SplitInt kept only one value of those read"),
"read byte arrays of fixed size":("C13","a fixed-size byte array was saved and not read back"),
"list the paths of models with empty list items":("C15","an empty date item in a list made ListPaths fail for the whole model"),
"get paths of pointers to types that marshal with pointer receivers":("C15","GetPath missed a pointer to a type that marshals with a pointer receiver"),
"list and get paths in arrays with pointer receivers":("C15","paths into arrays with pointer receivers were neither listed nor readable"),
"do not save pointers to empty arrays":("C13","a pointer to an empty array was saved as an empty property"),
"do not write to models when listing and reading paths":("C03","listing or reading paths allocated embedded pointers, a data race between readers of one document"),
"do not write to models when saving":("C03","saving allocated embedded pointers, a data race between readers of one document"),
"list, get and set paths in arrays that have no methods of their own":("C15","paths into plain slices were neither listed nor readable"),
"remove one value from string lists":("C15","StringList.Remove and StringArray.Remove kept the value and dropped those after it"),
"don't overwrite existing values in Sync without replace flag":("C15","Sync with CREATE|DELETE replaced existing language alternatives and failed on other existing values, against its documentation"),
"don't overwrite values behind pointers without replace flag":("C17","a merge without the replace flag changed a value behind a pointer that was False or 0"),
"RIFF tags refused because of two doubly used tags":("C22","every SetTag and GetTag of the RIFF model failed because two tags were declared twice (IARL, ICMS)"),
"find EXIF tags of the exifEX model and in any case":("C22","tags of the exifEX part were unreachable and upper-case EXIF tags were not known"),
"find QuickTime tags with copyright sign and report known tags":("C22","QuickTime tags with the copyright sign were acknowledged and dropped; XMP_ and iXML were unreachable; CanTag denied known tags"),
"report native tags that cannot be stored":("C22","setting a list tag without text form reported success without effect"),
"no panic when reading languages of a tag without languages":("C22","GetLocaleField panicked for tags that are not language alternatives"),
"list the tags of all parts of QuickTime metadata":("C22","ListTags of QuickTime left out the tags of all parts but one"),
"no panic when listing tags with binary values":("C22","ListTags panicked when a binary tag was set (iTunes Encoding Params)"),
"read the ID3 v2.2 content type as genre":("C22","the ID3 v2.2 tag TCO (genre) was stored as media type"),
"set languages through older ID3 tag names":("C22","SetLocaleTag of ID3 did not know the tag names GetLocaleTag knows"),
"clear native fields that are set to an empty string":("C22","SetTag or SetNativeField with an empty string on a field that is not plain text returned an error or left the old value"),
"join EXIF artists with the separator they are split at":("C21","several artists in dc:creator, read from the EXIF artist tag as one text and saved again, became one artist"),
"take the EXIF software from the creator tool":("C21","EXIF software tag (0x0131) stayed empty for a loaded xmp:CreatorTool"),
"keep the subseconds of EXIF dates":("C21","EXIF subsecond tags (0x9290-0x9292) were dropped on a save and empty after a restart"),
"keep the software given under its old TIFF name":("C21","the value of the tiff X_Software tag was lost on save"),
"read values under old TIFF and EXIF names without an edit":("C21","values stored under the old TIFF and EXIF names were only visible after an edit"),
"keep QuickTime locations":("C22","QuickTime mdta location was lost when the document was saved and loaded"),
"remove the copies of a removed property":("C21","removing dc:rights, xmp:CreatorTool and other standard properties of a document whose TIFF, EXIF, RIFF or PDF model holds a copy was acknowledged, but the value came back at the next save"),
"compare the converted value when syncing":("C21","SyncModels did not add an identifier when the first listed identifier equalled the raw identifier without its scheme prefix, and added it again when it was listed already"),
"remove native EXIF values of removed properties":("C21","removing exif:DateTimeDigitized or a GPS property from a document whose EXIF model held the native tag was acknowledged, but the value came back at the next save"),
"save new subseconds of an unchanged digitizing date":("C21","setting EXIF tag 0x9292 next to a 0x9004 with the date that was loaded before was acknowledged, exif:DateTimeDigitized kept its old fraction"),
"remove the second RIFF tags of removed properties":("C21","removing riffinfo:EncodedBy (DateTimeOriginal, Starring) while tag IENC (IDIT, STAR) is set was acknowledged, the value came back at the next save"),
"gather identifiers of QuickTime user data":("C21","SyncModels never added qt:udta/GUID, ISRCCode and ContentID to xmp:Identifier: its table names paths that do not exist (qt:GUID)"),
"keep writing a digitizing date once it was changed":("C21","setting EXIF tag 0x9004 back to the date that was loaded, after another date had been saved, was acknowledged and not saved"),
"frames of time codes with whole frame rates":("C21","xmpDM:startTimecode of an iXML file with timecodeRate 25/1 always has frame 00"),
"format of 59.94 non-drop time codes":("C21","xmpDM:startTimecode of an iXML file with rate 60000/1001 NDF has format 5994DropTimecode"),
"keep QuickTime locations without name and coordinates":("C21","native location.body, date, note or role without name and coordinates were acknowledged and not saved"),
"order of day and month in ID3 v2.3 dates":("C22","SetTag(TDAT, \"2003\") (20 March) was refused, and \"0102\" meant January 2"),
"number of column names in native OECF values":("C22","SetTag(0x8828, \"2 1 red blue 1/2 3/4\") was refused: with two columns only one name was taken"),
"leave an unset field unset when its native value is refused":("C22","after a refused SetTag(iTunSMPB, \"0 x\") saved data have an empty iTunes:SMPB"),
"native tags are known even while their value has no text form":("C22","CanTag(iTunSMPB) was false once the document had iTunes:SMPB"),
"keep the properties of a document added to the pantry only once":("C23","AddPantry saved every property of the embedded document twice, the second time as dump of Go structures without namespace"),
"save the unknown attributes of pantry entries":("C23","properties of unknown namespaces in attribute form inside an xmpMM:Pantry entry were lost by the next save"),
"keep the name of pantry properties whose value is refused":("C23","a property of a pantry entry whose value could not be read lost its name: listed as xmpMM:Pantry[0]/[0], then saved as bare rdf:Seq or not at all"),
"deleting the ingredient behind the last one":("C23","ResourceRefArray.DeleteIndex(len) panicked"),
}
FINDINGS=json.load(open(os.path.join(here,"findings.json"))) if os.path.exists(os.path.join(here,"findings.json")) else []
log=subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
fixed=[]
for l in log:
    h,s=l.split(" ",1)
    if s.startswith("fix: "):
        s=s[5:]
        p,w=FIX.pop(s) if s in FIX else (None,None)
        if p is None: print("no entry for",s); continue
        fixed.append(f"fixed: property={p} {h} {w}")
for s in FIX: print("no commit for",s)
json.dump({"findings":FINDINGS,"fixed":fixed},open(os.path.join(here,"..","known_findings.json"),"w"),indent=1)
