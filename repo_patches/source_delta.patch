From 1fa006c6a851ca7931f5fd2a676b5bd616b44f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:48 +0000
Subject: [PATCH 01/40] fix: GearXML::createGearMgr keeps only completely read
 geometries

---
 src/gearxml/GearXML.cc | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/gearxml/GearXML.cc b/src/gearxml/GearXML.cc
index d2cc492..5cf5c2c 100644
--- a/src/gearxml/GearXML.cc
+++ b/src/gearxml/GearXML.cc
@@ -28,6 +28,7 @@
 #include "gear/GearMaterialProperties.h"
 
 //#include <algorithm>
+#include <memory>
 #include <sstream>
 #include <iostream>
 #include <dlfcn.h>
@@ -475,12 +476,11 @@ namespace gear{
     if( _gearMgr != 0 ){
       
       return _gearMgr ;
-      
-    } else {
-      
-      _gearMgr = new GearMgrImpl ;
-
     }
+
+    // only a completely read geometry is kept: if anything below throws the partially 
+    // filled manager is deleted, so that a later call reads the file again
+    std::unique_ptr<GearMgrImpl> gearMgr( new GearMgrImpl ) ;
     
     
     // parse the XML file
@@ -515,7 +515,7 @@ namespace gear{
     TiXmlNode* global =  root->FirstChild("global") ;
     if( global != 0 ){
       std::string detName  =  getXMLAttribute( global, "detectorName" )  ;
-      _gearMgr->setDetectorName( detName  ) ;
+      gearMgr->setDetectorName( detName  ) ;
     }    
     
     TiXmlNode* detectors = root->FirstChild("detectors")  ;
@@ -528,7 +528,7 @@ namespace gear{
     TiXmlNode* field = root->FirstChild("BField")  ;
     if( field != 0 ){
       ConstantBFieldXML handler ;
-      handler.fromXML( field->ToElement() , _gearMgr ) ; 
+      handler.fromXML( field->ToElement() , gearMgr.get() ) ; 
     }
 
 //-----GDML File ---------------
@@ -562,8 +562,8 @@ namespace gear{
 	GearPointProperties*    tgeopoint = mProp->getGearPointProperties() ;
 	GearDistanceProperties* tgeodist  = mProp->getGearDistanceProperties() ;
 	
-	_gearMgr->setPointProperties( tgeopoint );
-	_gearMgr->setDistanceProperties( tgeodist );
+	gearMgr->setPointProperties( tgeopoint );
+	gearMgr->setDistanceProperties( tgeodist );
 	
       } else {
 	
@@ -615,7 +615,7 @@ namespace gear{
       
       //       GearParameters* gp = 
 
-      handler->fromXML( det->ToElement() , _gearMgr ) ; 
+      handler->fromXML( det->ToElement() , gearMgr.get() ) ; 
       
     }
     
@@ -631,7 +631,7 @@ namespace gear{
       TiXmlNode* mat = 0 ;
       while( ( mat = materials->IterateChildren( "material", mat ) )  != 0  ){
 
-	handler.fromXML( mat->ToElement() , _gearMgr ) ; 
+	handler.fromXML( mat->ToElement() , gearMgr.get() ) ; 
       }
 
     }
@@ -641,6 +641,8 @@ namespace gear{
 
 
 
+    _gearMgr = gearMgr.release() ;
+
     return _gearMgr ;
   }
   
-- 
2.43.0


From 2b6bf69851b57f819376eda2988fd29023a9ce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:20 +0000
Subject: [PATCH 02/40] fix: TiXmlDocument::LoadFile reports read errors and
 zero bytes instead of using partial data

---
 include/gear/gearxml/tinyxml.h |  1 +
 src/gearxml/tinyxml.cc         | 45 +++++++++++++++++++++-------------
 src/gearxml/tinyxmlerror.cc    |  1 +
 3 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/include/gear/gearxml/tinyxml.h b/include/gear/gearxml/tinyxml.h
index 2882a83..55f0947 100644
--- a/include/gear/gearxml/tinyxml.h
+++ b/include/gear/gearxml/tinyxml.h
@@ -217,6 +217,7 @@ public:
 		TIXML_ERROR_PARSING_DECLARATION,
 		TIXML_ERROR_DOCUMENT_EMPTY,
 		TIXML_ERROR_EMBEDDED_NULL,
+		TIXML_ERROR_READING_FILE,
 
 		TIXML_ERROR_STRING_COUNT
 	};
diff --git a/src/gearxml/tinyxml.cc b/src/gearxml/tinyxml.cc
index 0217409..b01fdde 100644
--- a/src/gearxml/tinyxml.cc
+++ b/src/gearxml/tinyxml.cc
@@ -945,6 +945,7 @@ bool TiXmlDocument::LoadFile( const char* filename, TiXmlEncoding encoding )
 {
 	// Delete the existing data:
 	Clear();
+	ClearError();
 	location.Clear();
 
 	// There was a really terrifying little bug here. The code:
@@ -961,33 +962,43 @@ bool TiXmlDocument::LoadFile( const char* filename, TiXmlEncoding encoding )
 
 	if ( file )
 	{
-		// Get the file size, so we can pre-allocate the string. HUGE speed impact.
-		long length = 0;
-		fseek( file, 0, SEEK_END );
-		length = ftell( file );
-		fseek( file, 0, SEEK_SET );
-
-		// Strange case, but good to handle up front.
-		if ( length == 0 )
-		{
-			fclose( file );
-			return false;
-		}
-
-		// If we have a file, assume it is all one big XML file, and read it in.
+		// Assume it is all one big XML file, and read it in.
 		// The document parser may decide the document ends sooner than the entire file, however.
 		TIXML_STRING data;
-		data.reserve( length );
+		bool readError = false;
 
 		const int BUF_SIZE = 2048;
 		char buf[BUF_SIZE];
+		size_t nRead = 0;
 
-		while( fgets( buf, BUF_SIZE, file ) )
+		try
+		{
+			while( ( nRead = fread( buf, 1, BUF_SIZE, file ) ) > 0 )
+			{
+				data.append( buf, nRead );
+			}
+			readError = ( ferror( file ) != 0 );
+		}
+		catch( ... )
 		{
-			data += buf;
+			fclose( file );
+			throw;
 		}
 		fclose( file );
 
+		if ( readError )
+		{
+			SetError( TIXML_ERROR_READING_FILE, 0, 0, TIXML_ENCODING_UNKNOWN );
+			return false;
+		}
+
+		// The parser takes a zero byte for the end of the document: everything after it would be lost.
+		if ( data.find( '\0' ) != TIXML_STRING::npos )
+		{
+			SetError( TIXML_ERROR_EMBEDDED_NULL, 0, 0, TIXML_ENCODING_UNKNOWN );
+			return false;
+		}
+
 		Parse( data.c_str(), 0, encoding );
 
 		if (  Error() )
diff --git a/src/gearxml/tinyxmlerror.cc b/src/gearxml/tinyxmlerror.cc
index d355da3..be1d8e3 100644
--- a/src/gearxml/tinyxmlerror.cc
+++ b/src/gearxml/tinyxmlerror.cc
@@ -56,6 +56,7 @@ const char* TiXmlBase::errorString[ TIXML_ERROR_STRING_COUNT ] =
 	"Error parsing Declaration.",
 	"Error document empty.",
 	"Error null (0) or unexpected EOF found in input stream.",
+	"Failed to read file",
 };
 
 
-- 
2.43.0


From a2744ec9dc84a122dd51419adcdb05a6de04af4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:15 +0000
Subject: [PATCH 03/40] fix: the XML parser reports truncated documents and
 does not read behind the buffer

---
 include/gear/gearxml/tinyxml.h |  3 +++
 src/gearxml/tinyxmlparser.cc   | 19 +++++++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/gear/gearxml/tinyxml.h b/include/gear/gearxml/tinyxml.h
index 55f0947..5d8e5cf 100644
--- a/include/gear/gearxml/tinyxml.h
+++ b/include/gear/gearxml/tinyxml.h
@@ -292,6 +292,9 @@ protected:
 		}
 		else if ( *length )
 		{
+			// A truncated multi-byte character must not move p behind the end of the buffer.
+			for( int i=1; i<*length; ++i )
+				if ( !p[i] ) return 0;
 			strncpy( _value, p, *length );
 			return p + (*length);
 		}
diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index 311ae5a..1278fa2 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -621,7 +621,10 @@ const char* TiXmlBase::ReadText(	const char* p,
 			}
 		}
 	}
-	return p + strlen( endTag );
+	// An unterminated text (truncated file) must not move p behind the end of the buffer.
+	if ( p && *p )
+		return p + strlen( endTag );
+	return 0;
 }
 
 #ifdef TIXML_USE_STL
@@ -1121,6 +1124,7 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 			TiXmlAttribute* node = attributeSet.Find( attrib->Name() );
 			if ( node )
 			{
+				if ( document ) document->SetError( TIXML_ERROR_PARSING_ELEMENT, pErr, data, encoding );
 				node->SetValue( attrib->Value() );
 				delete attrib;
 				return 0;
@@ -1194,7 +1198,7 @@ const char* TiXmlElement::ReadValue( const char* p, TiXmlParsingData* data, TiXm
 		p = SkipWhiteSpace( p, encoding );
 	}
 
-	if ( !p )
+	if ( !p || !*p )
 	{
 		if ( document ) document->SetError( TIXML_ERROR_READING_ELEMENT_VALUE, 0, 0, encoding );
 	}	
@@ -1305,13 +1309,17 @@ const char* TiXmlComment::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 	const char* startTag = "<!--";
 	const char* endTag   = "-->";
 
-	if ( !StringEqual( p, startTag, false, encoding ) )
+	if ( !p || !*p || !StringEqual( p, startTag, false, encoding ) )
 	{
-		document->SetError( TIXML_ERROR_PARSING_COMMENT, p, data, encoding );
+		if ( document ) document->SetError( TIXML_ERROR_PARSING_COMMENT, p, data, encoding );
 		return 0;
 	}
 	p += strlen( startTag );
 	p = ReadText( p, &value, false, endTag, false, encoding );
+	if ( !p )
+	{
+		if ( document ) document->SetError( TIXML_ERROR_PARSING_COMMENT, 0, 0, encoding );
+	}
 	return p;
 }
 
@@ -1482,6 +1490,8 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data, TiXm
 		}
 
 		p = SkipWhiteSpace( p, _encoding );
+		if ( !p || !*p )
+			break;
 		if ( StringEqual( p, "version", true, _encoding ) )
 		{
 			TiXmlAttribute attrib;
@@ -1507,6 +1517,7 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data, TiXm
 				++p;
 		}
 	}
+	if ( document ) document->SetError( TIXML_ERROR_PARSING_DECLARATION, 0, 0, _encoding );
 	return 0;
 }
 
-- 
2.43.0


From e239b6bf66688a2a1a5cc462659ee9718827d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:37 +0000
Subject: [PATCH 04/40] fix: failures to write a geometry file are reported to
 the caller

---
 src/gearxml/GearXML.cc |  5 ++++-
 src/gearxml/tinyxml.cc | 18 +++++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/gearxml/GearXML.cc b/src/gearxml/GearXML.cc
index 5cf5c2c..856cb78 100644
--- a/src/gearxml/GearXML.cc
+++ b/src/gearxml/GearXML.cc
@@ -464,7 +464,10 @@ namespace gear{
 
     doc.InsertEndChild ( root ) ;
 
-    doc.SaveFile() ;
+    if( ! doc.SaveFile() ) {
+
+      throw Exception( std::string( "GearXML::createXMLFile: failed to write file " ) + fileName ) ;
+    }
 
   }
 
diff --git a/src/gearxml/tinyxml.cc b/src/gearxml/tinyxml.cc
index b01fdde..4ae6c22 100644
--- a/src/gearxml/tinyxml.cc
+++ b/src/gearxml/tinyxml.cc
@@ -1016,9 +1016,21 @@ bool TiXmlDocument::SaveFile( const char * filename ) const
 	FILE* fp = fopen( filename, "w" );
 	if ( fp )
 	{
-		Print( fp, 0 );
-		fclose( fp );
-		return true;
+		bool ok = false;
+		try
+		{
+			Print( fp, 0 );
+			ok = ( ferror( fp ) == 0 );
+		}
+		catch( ... )
+		{
+			fclose( fp );
+			throw;
+		}
+		// closing flushes the last part of the data
+		if ( fclose( fp ) != 0 )
+			ok = false;
+		return ok;
 	}
 	return false;
 }
-- 
2.43.0


From 300ab883472632a523c7459db8d016e0c5ee4fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:20 +0000
Subject: [PATCH 05/40] fix: a saved TrackerPlanes telescope can be read back

The layers were written without the <layers> element and without the ID
that reading requires, and the layer info and the layout type were dropped.
---
 src/gearxml/TrackerPlanesParametersXML.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/gearxml/TrackerPlanesParametersXML.cc b/src/gearxml/TrackerPlanesParametersXML.cc
index 9aca3ba..e48d5b8 100644
--- a/src/gearxml/TrackerPlanesParametersXML.cc
+++ b/src/gearxml/TrackerPlanesParametersXML.cc
@@ -44,6 +44,9 @@ namespace gear {
     setup_id.SetAttribute("ID", param->getLayoutID()) ;
     det.InsertEndChild( setup_id ) ;
 
+    TiXmlElement setup_type( "LayoutType" ) ;
+    setup_type.SetAttribute("type", param->getLayoutType()) ;
+    det.InsertEndChild( setup_type ) ;
 
     TiXmlElement nplanes( "LayoutNumberOfLayers" ) ;
     nplanes.SetAttribute("number", param->getLayoutNumberOfLayers()) ;
@@ -60,6 +63,9 @@ namespace gear {
       TrackerPlanesLayerImpl* layer = const_cast<gear::TrackerPlanesLayerImpl*  > (trackerplanesLayerLayout.getLayer(il));
       if( layer == 0 ) continue;
 
+      xmlLayer.SetAttribute( "ID" , layer->getID() ) ;
+      xmlLayer.SetAttribute( "info" , layer->getInfo() ) ;
+
       TrackerPlanesMaterialLayerImplVec& material = layer->getMaterialLayerVec();
 
       TrackerPlanesSensitiveLayerImplVec& sensitive = layer->getSensitiveLayerVec();
@@ -111,9 +117,11 @@ namespace gear {
            xmlLayer.InsertEndChild( xmlSensor ) ;
        }
 
-      det.InsertEndChild( xmlLayer ) ;
+      layers.InsertEndChild( xmlLayer ) ;
     }
 
+    det.InsertEndChild( layers ) ;
+
     // Assemble Detector
     GearParametersXML::getXMLForParameters( &det , &parameters ) ;
 
@@ -128,7 +136,12 @@ namespace gear {
     const TiXmlElement* trackerplanesID = xmlElement->FirstChildElement( "LayoutID" ) ;
     int setupID = atoi( getXMLAttribute( trackerplanesID , "ID" ).c_str() ) ;
 
+    // the type is optional, as it is missing in older files
     int intType = 0;
+    const TiXmlElement* trackerplanesType = xmlElement->FirstChildElement( "LayoutType" ) ;
+    if( trackerplanesType != 0 ) {
+      intType = atoi( getXMLAttribute( trackerplanesType , "type" ).c_str() ) ;
+    }
  
     const TiXmlElement* trackerplanesNumber = xmlElement->FirstChildElement( "LayoutNumberOfLayers" ) ;
     int nplanes = atoi( getXMLAttribute( trackerplanesNumber , "number" ).c_str() ) ;
-- 
2.43.0


From 0e4503280310f124a65478feed9071b875dd0622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:49 +0000
Subject: [PATCH 06/40] fix: SiPlanes rotations and resolutions of sensitive
 layers are saved

---
 src/gearxml/SiPlanesParametersXML.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gearxml/SiPlanesParametersXML.cc b/src/gearxml/SiPlanesParametersXML.cc
index bc5730f..f8ebbd5 100644
--- a/src/gearxml/SiPlanesParametersXML.cc
+++ b/src/gearxml/SiPlanesParametersXML.cc
@@ -133,6 +133,9 @@ namespace gear {
       sens.SetDoubleAttribute( "positionX" , siplanesLayers.getSensitivePositionX( i ) ) ;
       sens.SetDoubleAttribute( "positionY" , siplanesLayers.getSensitivePositionY( i ) ) ;
       sens.SetDoubleAttribute( "positionZ" , siplanesLayers.getSensitivePositionZ( i ) ) ;
+      sens.SetDoubleAttribute( "rotationXY" , siplanesLayers.getSensitiveRotationXY( i ) ) ;
+      sens.SetDoubleAttribute( "rotationZX" , siplanesLayers.getSensitiveRotationZX( i ) ) ;
+      sens.SetDoubleAttribute( "rotationZY" , siplanesLayers.getSensitiveRotationZY( i ) ) ;
       sens.SetDoubleAttribute( "sizeX" , siplanesLayers.getSensitiveSizeX( i ) ) ;
       sens.SetDoubleAttribute( "sizeY" , siplanesLayers.getSensitiveSizeY( i ) ) ;
       sens.SetDoubleAttribute( "thickness" , siplanesLayers.getSensitiveThickness( i ) ) ;
@@ -141,6 +144,8 @@ namespace gear {
       sens.SetDoubleAttribute( "pitchX" , siplanesLayers.getSensitivePitchX( i ) ) ;
       sens.SetDoubleAttribute( "pitchY" , siplanesLayers.getSensitivePitchY( i ) ) ;
       sens.SetDoubleAttribute( "resolution" , siplanesLayers.getSensitiveResolution( i ) ) ;
+      sens.SetDoubleAttribute( "resolutionX" , siplanesLayers.getSensitiveResolutionX( i ) ) ;
+      sens.SetDoubleAttribute( "resolutionY" , siplanesLayers.getSensitiveResolutionY( i ) ) ;
       sens.SetDoubleAttribute( "rotation1" , siplanesLayers.getSensitiveRotation1( i ) ) ;
       sens.SetDoubleAttribute( "rotation2" , siplanesLayers.getSensitiveRotation2( i ) ) ;
       sens.SetDoubleAttribute( "rotation3" , siplanesLayers.getSensitiveRotation3( i ) ) ;
-- 
2.43.0


From b4033536a48f07797f0cd9cc86a42b221b8b9e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:13 +0000
Subject: [PATCH 07/40] fix: pad row layouts write the attributes that reading
 them expects

---
 src/gearxml/FixedPadAngleDiskLayoutXML.cc |  2 +-
 src/gearxml/RectangularPadRowLayoutXML.cc |  2 +-
 src/gearxml/VersatileDiskRowLayoutXML.cc  | 10 +++++-----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/gearxml/FixedPadAngleDiskLayoutXML.cc b/src/gearxml/FixedPadAngleDiskLayoutXML.cc
index 44d6fd0..e52f54b 100644
--- a/src/gearxml/FixedPadAngleDiskLayoutXML.cc
+++ b/src/gearxml/FixedPadAngleDiskLayoutXML.cc
@@ -40,7 +40,7 @@ namespace gear {
     
     padRowLayout2DXML.SetDoubleAttribute("phiMax", (fixedPadLayout->getPlaneExtent())[3]);
     
-    padRowLayout2DXML.SetAttribute("nPadInRow",fixedPadLayout->getNPadsInRow());
+    padRowLayout2DXML.SetAttribute("nPadsInRow",fixedPadLayout->getNPadsInRow());
     
     return padRowLayout2DXML ;
   }
diff --git a/src/gearxml/RectangularPadRowLayoutXML.cc b/src/gearxml/RectangularPadRowLayoutXML.cc
index 5f9f91a..470f8a6 100644
--- a/src/gearxml/RectangularPadRowLayoutXML.cc
+++ b/src/gearxml/RectangularPadRowLayoutXML.cc
@@ -32,7 +32,7 @@ namespace gear {
     int repeatRowCount =  rectangularPadLayout->getRepeatRowCount() ;
 
     if( repeatRowCount > 1 )
-      padRowLayout2DXML.SetDoubleAttribute( "RepeatRows", repeatRowCount );
+      padRowLayout2DXML.SetAttribute( "repeatRows", repeatRowCount );
 
 
     const std::vector<unsigned>& rowNumbers = rectangularPadLayout->equalRowNumbers() ;
diff --git a/src/gearxml/VersatileDiskRowLayoutXML.cc b/src/gearxml/VersatileDiskRowLayoutXML.cc
index 26a5efc..7cb80cf 100644
--- a/src/gearxml/VersatileDiskRowLayoutXML.cc
+++ b/src/gearxml/VersatileDiskRowLayoutXML.cc
@@ -38,12 +38,12 @@ namespace gear {
 	TiXmlElement rowElement("row");
     
 	rowElement.SetAttribute("nPad", rowIter->getNPads() ) ;
-	rowElement.SetDoubleAttribute("padPitch", rowIter->getPadPitch() ) ; 
-	rowElement.SetDoubleAttribute("padPitch", rowIter->getPadPitch() ) ; 
+	// addRow() takes the dimensions in mm, not in radians
+	rowElement.SetDoubleAttribute("padPitch", rowIter->getPadPitch_mm() ) ; 
 	rowElement.SetDoubleAttribute("rowHeight", rowIter->getRowHeight() ) ; 
-	rowElement.SetDoubleAttribute("padWidth", rowIter->getPadWidth() ) ; 
+	rowElement.SetDoubleAttribute("padWidth", rowIter->getPadWidth_mm() ) ; 
 	rowElement.SetDoubleAttribute("padHeight", rowIter->getPadHeight() ) ;
-	rowElement.SetDoubleAttribute("offset", rowIter->getOffset() ) ;
+	rowElement.SetDoubleAttribute("offset", rowIter->getOffset_mm() ) ;
 
 	padRowLayout2DXML.InsertEndChild( rowElement ) ;	
     }
@@ -65,7 +65,7 @@ namespace gear {
 	  double padPitch  =  atof(  getXMLAttribute( xmlRow, "padPitch" ) .c_str() ) ;
 	  double rowHeight =  atof(  getXMLAttribute( xmlRow , "rowHeight" ) .c_str() ) ;
 
-	  double padWidth  = atof(  getOptionalXMLAttribute( xmlRow , "padWidtht" , "0.0" ).c_str() ) ;
+	  double padWidth  = atof(  getOptionalXMLAttribute( xmlRow , "padWidth" , "0.0" ).c_str() ) ;
 	  double padHeight = atof(  getOptionalXMLAttribute( xmlRow , "padHeight" , "0.0" ).c_str() ) ;
 	  double offset    = atof(  getOptionalXMLAttribute( xmlRow , "offset"    , "0.0" ).c_str() ) ;
 	  int    repeat    = atoi(  getOptionalXMLAttribute( xmlRow , "repeat"    , "1" ).c_str() ) ;
-- 
2.43.0


From 65ad6c635d6c3f2fb87d6f8006ef4e56daafe39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:16 +0000
Subject: [PATCH 08/40] fix: VersatileDiskRowLayout rows do not depend on how
 they were grouped

The plane extent ignored all but the last of repeated rows, an offset of 2 pi
and more grew instead of being wrapped, and a refused row left the ones
before it behind.  A saved layout, which lists every row, did not reload equal.
---
 src/gearimpl/VersatileDiskRowLayout.cc | 39 +++++++++++++++-----------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 1e8c11f..b25d5cc 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -77,28 +77,35 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
 
     double rCentre = _extent[1] + rowHeight*0.5;
 
-    _nPad +=  repeat*nPads ;
+    // prepare all the rows before changing anything, so the layout stays as it was
+    // if one of them is refused
+    std::vector<Row> rows = _rows;
+    std::vector<double> extent = _extent;
 
     for (int i = 0; i < repeat; i++)
     {
-	_rows.push_back( Row(_rows.size(), nPads, rCentre, padPitch , rowHeight , 
-			     padWidth, padHeight, offset ) ); 
-	_padIndices.push_back( 0 );
+	rows.push_back( Row(rows.size(), nPads, rCentre, padPitch , rowHeight , 
+			    padWidth, padHeight, offset ) ); 
 	rCentre += rowHeight;
-    }
 
-    // calculate correct plane extent
-    _extent[1]+= repeat * rowHeight;
-    if ( (_rows.size() ==1) || (_rows.back().getPhiMin() < _extent[2] ) )
-	_extent[2] = _rows.back().getPhiMin();
-    if ( (_rows.size() ==1) || (_rows.back().getPhiMax() > _extent[3] ) )
-	_extent[3] = _rows.back().getPhiMax();
+	// calculate correct plane extent, every row has different angles
+	extent[1]+= rowHeight;
+	if ( (rows.size() ==1) || (rows.back().getPhiMin() < extent[2] ) )
+	    extent[2] = rows.back().getPhiMin();
+	if ( (rows.size() ==1) || (rows.back().getPhiMax() > extent[3] ) )
+	    extent[3] = rows.back().getPhiMax();
     
-    if ( (_extent[3] - _extent[2]) > 2*M_PI )
-    {
-	_extent[2] = 0.;
-	_extent[3] = 2*M_PI;
+	if ( (extent[3] - extent[2]) > 2*M_PI )
+	{
+	    extent[2] = 0.;
+	    extent[3] = 2*M_PI;
+	}
     }
+
+    _padIndices.resize( rows.size(), 0 );
+    _rows.swap( rows );
+    _extent.swap( extent );
+    _nPad +=  repeat*nPads ;
   }
 
   int VersatileDiskRowLayout::getNRows() const {
@@ -363,7 +370,7 @@ VersatileDiskRowLayout::Row::Row(int rowNumber, int nPads, double rCentre, doubl
     if (_offset >=  2. * M_PI)
     {
 	_offset -= 2. * M_PI;
-	_offset_mm += rCentre*2. * M_PI;	
+	_offset_mm -= rCentre*2. * M_PI;	
     }
 
     _padPitch = _padPitch_mm / rCentre;
-- 
2.43.0


From cb82bf1ac82a0975de1798f3dba8889f34f1f641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:25 +0000
Subject: [PATCH 09/40] fix: key lists are not rebuilt by const queries

getIntKeys() etc., getGearParameterKeys() and getMaterialNames() cleared and
refilled the list they return a reference to, so two readers of an unmodified
geometry could corrupt it, and a failing allocation left it incomplete.  The
lists are now maintained by the set methods, which change nothing if they fail.
---
 include/gear/gearimpl/GearMgrImpl.h        |   5 +-
 include/gear/gearimpl/GearParametersImpl.h |  15 +--
 src/gearimpl/GearMgrImpl.cc                |  38 ++++----
 src/gearimpl/GearParametersImpl.cc         | 105 +++++++++++----------
 4 files changed, 90 insertions(+), 73 deletions(-)

diff --git a/include/gear/gearimpl/GearMgrImpl.h b/include/gear/gearimpl/GearMgrImpl.h
index 428d748..39965ab 100644
--- a/include/gear/gearimpl/GearMgrImpl.h
+++ b/include/gear/gearimpl/GearMgrImpl.h
@@ -366,9 +366,10 @@ namespace gear {
 
     MeasurementSurfaceStore* _surfaceStore = nullptr ;
     
-    mutable StringVec _keys{} ;
+    // sorted keys of the maps, kept up to date by the set methods
+    StringVec _keys{} ;
 
-    mutable StringVec _matNames{} ;
+    StringVec _matNames{} ;
     
    
     /** function to copy all internal variables, incl. the objects
diff --git a/include/gear/gearimpl/GearParametersImpl.h b/include/gear/gearimpl/GearParametersImpl.h
index 8c96afb..15ef45f 100644
--- a/include/gear/gearimpl/GearParametersImpl.h
+++ b/include/gear/gearimpl/GearParametersImpl.h
@@ -30,7 +30,7 @@ namespace gear {
 	
     GearParametersImpl() = default ;
     GearParametersImpl(const GearParametersImpl&) = default ;
-    GearParametersImpl& operator = (const GearParametersImpl&) = default ;
+    GearParametersImpl& operator = (const GearParametersImpl&) ;
 
     /// Destructor.
     virtual ~GearParametersImpl() = default ;
@@ -126,12 +126,13 @@ namespace gear {
     std::map< std::string, DoubleVec > _doubleVecMap{} ;
     std::map< std::string, StringVec > _stringVecMap{} ;
 
-    mutable StringVec _intKeys{} ;
-    mutable StringVec _doubleKeys{} ;
-    mutable StringVec _stringKeys{} ;
-    mutable StringVec _intVecKeys{} ;
-    mutable StringVec _doubleVecKeys{} ;
-    mutable StringVec _stringVecKeys{} ;
+    // sorted keys of the maps, kept up to date by the set methods
+    StringVec _intKeys{} ;
+    StringVec _doubleKeys{} ;
+    StringVec _stringKeys{} ;
+    StringVec _intVecKeys{} ;
+    StringVec _doubleVecKeys{} ;
+    StringVec _stringVecKeys{} ;
               
 
   }; // class
diff --git a/src/gearimpl/GearMgrImpl.cc b/src/gearimpl/GearMgrImpl.cc
index d7cb6a2..e0aff8b 100644
--- a/src/gearimpl/GearMgrImpl.cc
+++ b/src/gearimpl/GearMgrImpl.cc
@@ -20,10 +20,30 @@
 #include "gearimpl/ConstantBField.h"
 #include "gearimpl/SimpleMaterialImpl.h"
 
+#include <algorithm>
 #include <sstream>
+#include <utility>
 
 namespace gear{
 
+  namespace {
+
+    /** Store val for the new key and keep the sorted list of keys in step - if this fails nothing is changed.
+     */
+    template <class MAP, class VAL>
+    void insertValue( MAP& map, StringVec& keys, const std::string& key, VAL* val ) {
+
+      // everything that can fail has to be done before the first modification 
+      std::string newKey( key ) ;
+      if( keys.size() == keys.capacity() ) 
+	keys.reserve( 2 * keys.size() + 4 ) ;
+
+      map.insert( std::make_pair( key , val ) ) ;
+      keys.insert( std::lower_bound( keys.begin(), keys.end(), newKey ), std::move( newKey ) ) ;
+    }
+
+  }
+
 
   GearMgrImpl::GearMgrImpl() :
     _tpcParameters(0) ,
@@ -397,7 +417,7 @@ namespace gear{
       
     } else {
       
-      _map[ key ] = parameters ; 
+      insertValue( _map, _keys, key, parameters ) ; 
       
     }
     
@@ -565,24 +585,10 @@ namespace gear{
   }
   
   const std::vector<std::string>& GearMgrImpl::getGearParameterKeys() const {
-
-    _keys.clear() ;
-    _keys.reserve( _map.size() ) ;
-
-    for( ParameterMap::const_iterator it = _map.begin() ; it != _map.end() ; ++it ){
-      _keys.push_back( it->first ) ;
-    }
     return _keys ;
   }
 
   const std::vector<std::string>& GearMgrImpl::getMaterialNames() const {
-    
-    _matNames.clear() ;
-    _matNames.reserve( _matMap.size() ) ;
-    
-    for( MatMap::const_iterator it = _matMap.begin() ; it != _matMap.end() ; ++it ){
-      _matNames.push_back( it->first ) ;
-    }
     return _matNames ;
   
   }
@@ -616,7 +622,7 @@ namespace gear{
       throw Exception( mess.str() ) ;
     }
     
-    _matMap[ material->getName() ] = material ;
+    insertValue( _matMap, _matNames, material->getName(), material ) ;
 
   }
 
diff --git a/src/gearimpl/GearParametersImpl.cc b/src/gearimpl/GearParametersImpl.cc
index ec340d6..1016b36 100644
--- a/src/gearimpl/GearParametersImpl.cc
+++ b/src/gearimpl/GearParametersImpl.cc
@@ -1,6 +1,57 @@
 #include "gearimpl/GearParametersImpl.h"
 
+#include <algorithm>
+#include <utility>
+
 namespace gear{
+
+  namespace {
+
+    /** Store val for key and keep the sorted list of keys in step - if this fails nothing is changed.
+     */
+    template <class MAP, class VAL>
+    void setValue( MAP& map, StringVec& keys, const std::string& key, const VAL& val ) {
+
+      typename MAP::iterator it = map.find( key ) ;
+
+      if( it != map.end() ) {
+	VAL newVal( val ) ;
+	std::swap( it->second , newVal ) ;
+	return ;
+      }
+
+      // everything that can fail has to be done before the first modification 
+      std::string newKey( key ) ;
+      if( keys.size() == keys.capacity() ) 
+	keys.reserve( 2 * keys.size() + 4 ) ;
+
+      map.insert( std::make_pair( key , val ) ) ;
+      keys.insert( std::lower_bound( keys.begin(), keys.end(), newKey ), std::move( newKey ) ) ;
+    }
+
+  }
+
+  GearParametersImpl& GearParametersImpl::operator = (const GearParametersImpl& right) {
+
+    // copy first, so that this object is unchanged if copying fails
+    GearParametersImpl copy( right ) ;
+
+    _intMap.swap( copy._intMap ) ;
+    _doubleMap.swap( copy._doubleMap ) ;
+    _stringMap.swap( copy._stringMap ) ;
+    _intVecMap.swap( copy._intVecMap ) ;
+    _doubleVecMap.swap( copy._doubleVecMap ) ;
+    _stringVecMap.swap( copy._stringVecMap ) ;
+
+    _intKeys.swap( copy._intKeys ) ;
+    _doubleKeys.swap( copy._doubleKeys ) ;
+    _stringKeys.swap( copy._stringKeys ) ;
+    _intVecKeys.swap( copy._intVecKeys ) ;
+    _doubleVecKeys.swap( copy._doubleVecKeys ) ;
+    _stringVecKeys.swap( copy._stringVecKeys ) ;
+
+    return *this ;
+  }
   
   int GearParametersImpl::getIntVal(const std::string & key) const {
     
@@ -51,99 +102,57 @@ namespace gear{
   }
 
   void GearParametersImpl::setIntVal(const std::string & key , int val ) {
-    _intMap[ key ] = val ;
+    setValue( _intMap, _intKeys, key, val ) ;
   }
     
   void GearParametersImpl::setDoubleVal(const std::string & key, double val ) {
-    _doubleMap[ key ] = val ;
+    setValue( _doubleMap, _doubleKeys, key, val ) ;
   }
 
     
   void GearParametersImpl::setStringVal(const std::string & key , const std::string & val) {
-    _stringMap[ key ] = val ;
+    setValue( _stringMap, _stringKeys, key, val ) ;
   }
 
     
   void GearParametersImpl::setIntVals(const std::string & key, const std::vector<int>& vals) {
-    _intVecMap[ key ] = vals ;
+    setValue( _intVecMap, _intVecKeys, key, vals ) ;
   }
 
 
   void GearParametersImpl::setDoubleVals(const std::string & key, const std::vector<double>& vals) {
-    _doubleVecMap[ key ] = vals ;
+    setValue( _doubleVecMap, _doubleVecKeys, key, vals ) ;
   }
 
     
   void GearParametersImpl::setStringVals(const std::string & key, const std::vector<std::string>& vals) {
-    _stringVecMap[ key ] = vals ;
+    setValue( _stringVecMap, _stringVecKeys, key, vals ) ;
   }
 
   const std::vector<std::string>& GearParametersImpl::getIntKeys() const {
-
-    _intKeys.clear() ;
-    _intKeys.reserve( _intMap.size() ) ;
-
-    for( IntMap::const_iterator it = _intMap.begin() ; it != _intMap.end() ; ++it ){
-      _intKeys.push_back( it->first ) ;
-    }
     return _intKeys ;
   }
   
   const std::vector<std::string>& GearParametersImpl::getDoubleKeys() const {   
-
-    _doubleKeys.clear() ;
-    _doubleKeys.reserve( _doubleMap.size() ) ;
-    
-    for( DoubleMap::const_iterator it = _doubleMap.begin() ; it != _doubleMap.end() ; ++it ){
-      _doubleKeys.push_back( it->first ) ;
-    }
     return _doubleKeys ;
   } 
   
 
 
   const std::vector<std::string>& GearParametersImpl::getStringKeys() const { 
-
-    _stringKeys.clear() ;
-    _stringKeys.reserve( _stringMap.size() ) ;
-
-    for( StringMap::const_iterator it = _stringMap.begin() ; it != _stringMap.end() ; ++it ){
-      _stringKeys.push_back( it->first ) ;
-    }
     return _stringKeys ;
   } 
   
   const std::vector<std::string>& GearParametersImpl::getIntVecKeys() const { 
-
-    _intVecKeys.clear() ;
-    _intVecKeys.reserve( _intVecMap.size() ) ;
-
-    for( IntVecMap::const_iterator it = _intVecMap.begin() ; it != _intVecMap.end() ; ++it ){
-      _intVecKeys.push_back( it->first ) ;
-    }
     return _intVecKeys ;
   } 
   
   const std::vector<std::string>& GearParametersImpl::getDoubleVecKeys() const { 
-
-    _doubleVecKeys.clear() ;
-    _doubleVecKeys.reserve( _doubleVecMap.size() ) ;
-    
-    for( DoubleVecMap::const_iterator it = _doubleVecMap.begin() ; it != _doubleVecMap.end() ; ++it ){
-      _doubleVecKeys.push_back( it->first ) ;
-    }
     return _doubleVecKeys ;
   }
 
 
   const std::vector<std::string>& GearParametersImpl::getStringVecKeys() const { 
-
-    _stringVecKeys.clear() ;
-    _stringVecKeys.reserve( _stringVecMap.size() ) ;
-    
-    for( StringVecMap::const_iterator it = _stringVecMap.begin() ; it != _stringVecMap.end() ; ++it ){
-      _stringVecKeys.push_back( it->first ) ;
-    }
     return _stringVecKeys ;
   } 
   
-- 
2.43.0


From f057e05c31c902d6c74d6b87aae5593b4157f807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:40 +0000
Subject: [PATCH 10/40] fix: storing the same parameters in GearMgrImpl again
 does not delete them

---
 src/gearimpl/GearMgrImpl.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/GearMgrImpl.cc b/src/gearimpl/GearMgrImpl.cc
index e0aff8b..0255b65 100644
--- a/src/gearimpl/GearMgrImpl.cc
+++ b/src/gearimpl/GearMgrImpl.cc
@@ -412,7 +412,8 @@ namespace gear{
 
     if( it != _map.end() ) {
       
-      delete it->second ;
+      if( it->second != parameters )  // storing the same object again must not delete it
+	delete it->second ;
       it->second = parameters ;
       
     } else {
@@ -426,7 +427,7 @@ namespace gear{
   
   void GearMgrImpl::setTPCParameters( TPCParameters* tpcParameters ) {
     
-    if(  _tpcParameters ) 
+    if( _tpcParameters != tpcParameters )  // storing the same object again must not delete it
       delete _tpcParameters ;
 
     _tpcParameters = tpcParameters ;
-- 
2.43.0


From ae34809932ea037c59c6ce7020790fc88de384f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:21 +0000
Subject: [PATCH 11/40] fix: TPCParametersImpl can be copied, and refused or
 failed additions leave it unchanged

Copying recursed into its own assignment operator for ever.  addModule changed
the ID map before everything that can fail, and the cathode position depended on
the order in which modules with and without a z position were added.
---
 include/gear/gearimpl/TPCParametersImpl.h |   7 +-
 src/gearimpl/TPCParametersImpl.cc         | 197 +++++++++++++---------
 2 files changed, 126 insertions(+), 78 deletions(-)

diff --git a/include/gear/gearimpl/TPCParametersImpl.h b/include/gear/gearimpl/TPCParametersImpl.h
index 08b7bcf..f28fa46 100644
--- a/include/gear/gearimpl/TPCParametersImpl.h
+++ b/include/gear/gearimpl/TPCParametersImpl.h
@@ -225,7 +225,12 @@ protected:
   // Internal function to avoid code duplication
   // Recalculation of the z postion is necessary when a module is added and when the 
   // maximal drift distance is changed.
-  void setCathodePosition();
+  static double calculateCathodePosition( double maxDriftLength,
+					  std::vector<TPCModule *> const & modulesNegativeHalfTPC,
+					  std::vector<TPCModule *> const & modulesPositiveHalfTPC );
+
+  // Internal function to get the z position of the first module that has one
+  static bool findZPosition( std::vector<TPCModule *> const & modulesVector, double & z );
 
 }; // class
 
diff --git a/src/gearimpl/TPCParametersImpl.cc b/src/gearimpl/TPCParametersImpl.cc
index ff2a2c8..b4219a5 100644
--- a/src/gearimpl/TPCParametersImpl.cc
+++ b/src/gearimpl/TPCParametersImpl.cc
@@ -42,43 +42,67 @@ namespace gear {
 
     void TPCParametersImpl::copy_and_assign(const  TPCParametersImpl & right)
     {
-	// create copies of all modules in the _TPCModules vector
-	std::vector<TPCModule *>::const_iterator itr;
-	
-	for(itr = right._TPCModules.begin();itr!=right._TPCModules.end();itr++)
+	// prepare everything in local copies, so this object stays as it is if something fails
+	std::vector<TPCModule *> modules, modulesPositiveHalfTPC, modulesNegativeHalfTPC;
+	modules.reserve( right._TPCModules.size() );
+	modulesPositiveHalfTPC.reserve( right._TPCModules.size() );
+	modulesNegativeHalfTPC.reserve( right._TPCModules.size() );
+
+	try
 	{
-	    _TPCModules.push_back( dynamic_cast<TPCModule *>((*itr)->clone()) );
+	  // create copies of all modules in the _TPCModules vector
+	  std::vector<TPCModule *>::const_iterator itr;
+	
+	  for(itr = right._TPCModules.begin();itr!=right._TPCModules.end();itr++)
+	  {
+	    modules.push_back( dynamic_cast<TPCModule *>((*itr)->clone()) );
 	    // also copy the pointer to the negative or positive half TPC vectors
 	    try
 	    {
 	      if ((*itr)->getZPosition() <= 0 ) 
 	      {
-		_modulesNegativeHalfTPC.push_back( _TPCModules.back() );
+		modulesNegativeHalfTPC.push_back( modules.back() );
 	      }
 	      else 
 	      {
-		_modulesPositiveHalfTPC.push_back( _TPCModules.back() );
+		modulesPositiveHalfTPC.push_back( modules.back() );
 	      }
 	    }
 	    catch  ( TPCModule::NoZPositionException & e )
 	    {
 	      // put the module to both half TPCs, so the module is always returned, whatever z is
-	      _modulesPositiveHalfTPC.push_back( _TPCModules.back() );
-	      _modulesNegativeHalfTPC.push_back( _TPCModules.back() );
+	      modulesPositiveHalfTPC.push_back( modules.back() );
+	      modulesNegativeHalfTPC.push_back( modules.back() );
 	    }
+	  }
+
+	  std::map<int,int> moduleIDMap = right._moduleIDMap;
+	  std::vector<double> planeExtent = right._planeExtent;
+
+	  // call the assignment operator of the GearParametersImpl mother class
+	  GearParametersImpl::operator = (right);
+
+	  _moduleIDMap.swap( moduleIDMap );
+	  _planeExtent.swap( planeExtent );
 	}
+	catch (...)
+	{
+	  for (unsigned i = 0; i < modules.size(); i++)
+	    delete modules[i];
+	  throw;
+	}
+
+	cleanup();
+
+	_TPCModules.swap( modules );
+	_modulesPositiveHalfTPC.swap( modulesPositiveHalfTPC );
+	_modulesNegativeHalfTPC.swap( modulesNegativeHalfTPC );
 
 	// copy all the other variables
 	_maxDriftLength = right._maxDriftLength;
 	_coordinateType = right._coordinateType;
-	_moduleIDMap = right._moduleIDMap;
-	_planeExtent    = right._planeExtent;
 	_driftVelocity  = right._driftVelocity;
 	_cathodePosition = right._cathodePosition;
-
-	// call the assignment operator of the GearParametersImpl mother class:
-	// *dynamic_cast<GearParametersImpl*>(this) = *dynamic_cast<GearParametersImpl const *>(&right);
-        this->operator = (right);
     }
 
     /// Destructor.
@@ -90,8 +114,8 @@ namespace gear {
     ///Assignment operator
     TPCParametersImpl & TPCParametersImpl::operator = (  const TPCParametersImpl & right)
     {
-	cleanup();
-	copy_and_assign( right );
+	if ( this != &right )
+	    copy_and_assign( right );
 
 	return *this;
     }
@@ -105,7 +129,7 @@ namespace gear {
 	}
 
 	// Empty all vectors which are filled with push_back.
-	// The map is overwritten in the copy_and_assign.
+	// The map is replaced in the copy_and_assign.
 	_TPCModules.clear(); 
 	_modulesPositiveHalfTPC.clear();
 	_modulesNegativeHalfTPC.clear();
@@ -326,53 +350,60 @@ namespace gear {
 	if(_moduleIDMap.find(TPCModule->getModuleID())!=_moduleIDMap.end()) {
 	    throw gear::Exception("TPCParametersImpl::addModule: This Module Number has already been used.");	    
 	}
-	_moduleIDMap[TPCModule->getModuleID()] = currentVectorSize; 
-	_TPCModules.push_back(TPCModule);
+
+	// Calculate the new extent and make room first: when the first variable is
+	// changed nothing can fail any more.
+	std::vector<double> planeExtent = TPCModule->getModuleExtent();
+	if ( currentVectorSize > 0 ) // there are other modules, check for each boundary
+	{
+	  if(_planeExtent.at(0) < planeExtent.at(0)) {
+	      planeExtent.at(0)=_planeExtent.at(0);
+	  }
+	  if(_planeExtent.at(1) > planeExtent.at(1)) {
+	      planeExtent.at(1)=_planeExtent.at(1);
+	  }
+	  if(_planeExtent.at(2) < planeExtent.at(2)) {
+	      planeExtent.at(2)=_planeExtent.at(2);
+	  }
+	  if(_planeExtent.at(3) > planeExtent.at(3)) {
+	      planeExtent.at(3)=_planeExtent.at(3);
+	  }
+	}
+
+	std::vector<gear::TPCModule *> modulesNegativeHalfTPC = _modulesNegativeHalfTPC;
+	std::vector<gear::TPCModule *> modulesPositiveHalfTPC = _modulesPositiveHalfTPC;
 
 	// also add module to correct positive and negative half TPC
 	try
 	{
 	  if ( TPCModule->getZPosition() <= 0 )
 	  {
-	    _modulesNegativeHalfTPC.push_back(TPCModule);
+	    modulesNegativeHalfTPC.push_back(TPCModule);
 	  }
 	  else
 	  {
-	    _modulesPositiveHalfTPC.push_back(TPCModule);
+	    modulesPositiveHalfTPC.push_back(TPCModule);
 	  }
-
-	  // internal helper function to avoid code duplication
-	  setCathodePosition();
-
 	}
 	catch ( TPCModule::NoZPositionException & e )
         {
 	  // put the module to both half TPCs, so the module is always returned, whatever z is
-	  _modulesPositiveHalfTPC.push_back(TPCModule);
-	  _modulesNegativeHalfTPC.push_back(TPCModule);
-
-	  // no need to do anything about the cathode position, it has no effect anyways
+	  modulesPositiveHalfTPC.push_back(TPCModule);
+	  modulesNegativeHalfTPC.push_back(TPCModule);
 	}
 
-	if (_TPCModules.size() == 1 ) // there is only one module, copy the plane extent
-	{
-	  _planeExtent = TPCModule->getModuleExtent();
-	}
-	else // check for each boundary
-	{
-	  if(TPCModule->getModuleExtent().at(0) < _planeExtent.at(0)) {
-	      _planeExtent.at(0)=TPCModule->getModuleExtent().at(0);
-	  }
-	  if(TPCModule->getModuleExtent().at(1) > _planeExtent.at(1)) {
-	      _planeExtent.at(1)=TPCModule->getModuleExtent().at(1);
-	  }
-	  if(TPCModule->getModuleExtent().at(2) < _planeExtent.at(2)) {
-	      _planeExtent.at(2)=TPCModule->getModuleExtent().at(2);
-	  }
-	  if(TPCModule->getModuleExtent().at(3) > _planeExtent.at(3)) {
-	      _planeExtent.at(3)=TPCModule->getModuleExtent().at(3);
-	  }
-	}// else (_TPCModules.size() == 1 ) 
+	double cathodePosition = calculateCathodePosition( _maxDriftLength,
+							   modulesNegativeHalfTPC,
+							   modulesPositiveHalfTPC );
+
+	_TPCModules.reserve( currentVectorSize + 1 );
+	_moduleIDMap[TPCModule->getModuleID()] = currentVectorSize; 
+	_TPCModules.push_back(TPCModule);
+
+	_modulesNegativeHalfTPC.swap( modulesNegativeHalfTPC );
+	_modulesPositiveHalfTPC.swap( modulesPositiveHalfTPC );
+	_planeExtent.swap( planeExtent );
+	_cathodePosition = cathodePosition;
     }
 
     /** returns refeance to vector of Modules 
@@ -453,10 +484,11 @@ namespace gear {
 //		  << "   Please define maxDriftLength in constructor!"
 //		  << std::endl;
 
-	_maxDriftLength = maxDriftLength ;
-
 	// we have to recalculate the cathode position since this depends on the drift length
-	setCathodePosition();
+	_cathodePosition = calculateCathodePosition( maxDriftLength,
+						     _modulesNegativeHalfTPC,
+						     _modulesPositiveHalfTPC );
+	_maxDriftLength = maxDriftLength ;
     }
     
     void TPCParametersImpl::setDriftVelocity( double driftVelocity )
@@ -502,40 +534,51 @@ namespace gear {
 	addModule( new TPCModuleImpl(0, padLayout, _coordinateType ));
     }
 
-    void TPCParametersImpl::setCathodePosition()
+    double TPCParametersImpl::calculateCathodePosition( double maxDriftLength,
+	std::vector<TPCModule *> const & modulesNegativeHalfTPC,
+	std::vector<TPCModule *> const & modulesPositiveHalfTPC )
   {
     // Calculate the correct cathode position.
     // This is called when a module is added and the drift length has changed
-    try
+
+    // all modules in one half are assumed to be at the same z position
+    // otherwise only one drift length does not make sense
+    double zNegative, zPositive;
+    bool hasNegative = findZPosition( modulesNegativeHalfTPC, zNegative );
+    bool hasPositive = findZPosition( modulesPositiveHalfTPC, zPositive );
+
+    // There are modules in both half TPCs, take the middle between the anodes
+    if ( hasNegative && hasPositive )
+      return ( zNegative + zPositive ) /2. ;
+
+    if ( hasNegative ) // there is only the negative half TPC
+      return zNegative + maxDriftLength;
+
+    if ( hasPositive ) // there is only the positive half TPC
+      return zPositive - maxDriftLength;
+
+    // There are no modules with a z position. All modules are in both end caps
+    // anyway, so you will always get the module you want
+    return 0.;
+  }
+
+  bool TPCParametersImpl::findZPosition( std::vector<TPCModule *> const & modulesVector,
+					 double & z )
+  {
+    std::vector<TPCModule *>::const_iterator itr;
+    for ( itr = modulesVector.begin(); itr != modulesVector.end(); itr++ )
     {
-      if ( ! _modulesNegativeHalfTPC.empty() )
+      try
       {
-	if ( ! _modulesPositiveHalfTPC.empty() )
-	// There are modules in both half TPCs, take the middle between the anodes
-	{
-	  // all modules in one half are assumed to be at the same z position
-	  // otherwise only one drift length does not make sense
-	  _cathodePosition = ( _modulesNegativeHalfTPC[0]->getZPosition() 
-			       + _modulesPositiveHalfTPC[0]->getZPosition() ) /2. ;
-	}
-	else // there is only the negative half TPC
-	{
-	  _cathodePosition = _modulesNegativeHalfTPC[0]->getZPosition() + _maxDriftLength;
-	}
+	z = (*itr)->getZPosition();
+	return true;
       }
-      else if ( ! _modulesPositiveHalfTPC.empty() )
+      catch ( TPCModule::NoZPositionException & )
       {
-	// there is only the positive half TPC
-	_cathodePosition = _modulesPositiveHalfTPC[0]->getZPosition() - _maxDriftLength;
+	// this module is in both end caps, look for another one
       }
-      // else: there are no modules, leave the cathode position where it is (should be 0. )
     }
-    catch ( TPCModule::NoZPositionException & )
-    {
-      // leave the z position as is (should be 0.) The modules are in both end caps
-      // anyway, so you will always get the module you want
-    }
-
+    return false;
   }
 
 } // namespace gear
-- 
2.43.0


From 20c37ef3a7df55ba86890a4db19f43a5be13958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:55 +0000
Subject: [PATCH 12/40] fix: TPCModuleImpl copies its parameters, and its
 answers depend only on its final configuration

Copies and assignments dropped the generic parameters, a refused setter left a
half changed module, the z position did not enter the extents unless another
setter was called afterwards, and the polar short cut of globalToLocal ignored
one component of the offset.
---
 include/gear/gearimpl/TPCModuleImpl.h |   4 +
 src/gearimpl/TPCModuleImpl.cc         | 134 ++++++++++++++++++++------
 2 files changed, 110 insertions(+), 28 deletions(-)

diff --git a/include/gear/gearimpl/TPCModuleImpl.h b/include/gear/gearimpl/TPCModuleImpl.h
index 8b17dc5..5227a29 100644
--- a/include/gear/gearimpl/TPCModuleImpl.h
+++ b/include/gear/gearimpl/TPCModuleImpl.h
@@ -71,6 +71,10 @@ class TPCModuleImpl : public GearParametersImpl, public TPCModule
    */
   void copy_and_assign(const  TPCModuleImpl & );
 
+  /** the part of copy_and_assign() that cannot fail: all variables which are no containers or pointers
+   */
+  void copy_values(const  TPCModuleImpl & );
+
   /** function to delete all the objects
    *  pointed to and owned by the TPCModule.
    *  Used by desctructor and assigment operator to avoid code duplication
diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 0c07290..e4b1f69 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -45,12 +45,12 @@ namespace gear {
 	        // the calculation is much easyer
 	        if ( (_padRowLayout->getCoordinateType() == PadRowLayout2D::POLAR ) && 
 		     (_offset_cartesian[0] == 0 ) &&
-		     (_offset_cartesian[0] == 0 ) )
+		     (_offset_cartesian[1] == 0 ) )
 		{
 		    double localAngle = c1 - _angle ;
 		    // wrap to 0..2pi
 		    if (localAngle < 0) localAngle+= 2*M_PI;
-		    if (localAngle > 2*M_PI) localAngle+= 2*M_PI;
+		    if (localAngle > 2*M_PI) localAngle-= 2*M_PI;
 
 		    return Vector2D(c0, localAngle);
 		}
@@ -195,10 +195,14 @@ namespace gear {
      */
     void TPCModuleImpl::convertLocalPlaneToGlobalPlaneExtend()
     {
+	// All extents are calculated before any of them is changed, so they still belong
+	// together if one of them cannot be calculated.
+	std::vector<double> localModuleExtent(4), moduleExtent, planeExtent;
+
 	// first calculate the local module extend
 	if (_border == 0) // no border: local module extend is pad layout extend
 	{
-	    _localModuleExtent = _padRowLayout->getPlaneExtent();
+	    localModuleExtent = _padRowLayout->getPlaneExtent();
 	}
 	else
 	{
@@ -208,8 +212,8 @@ namespace gear {
 		{
 		    //first handle the radius
 		    double rMin = _padRowLayout->getPlaneExtent()[0] - _border;
-		    _localModuleExtent[0] = ( rMin >=0. ? rMin : 0. );
-		    _localModuleExtent[1] = _padRowLayout->getPlaneExtent()[1] + _border;//rMax
+		    localModuleExtent[0] = ( rMin >=0. ? rMin : 0. );
+		    localModuleExtent[1] = _padRowLayout->getPlaneExtent()[1] + _border;//rMax
 		
 		    // first calculate the angle which corresponds to the border
 		    double phiBorder;
@@ -236,18 +240,18 @@ namespace gear {
 			phiMax = _padRowLayout->getPlaneExtent()[3] + phiBorder;
 		    }
 		    
-		    _localModuleExtent[2] = phiMin;
-		    _localModuleExtent[3] = phiMax;
+		    localModuleExtent[2] = phiMin;
+		    localModuleExtent[3] = phiMax;
 
 		}
 		break;
 		case  PadRowLayout2D::CARTESIAN :
 		{
 		    // this is easy, just add / subtract the border to the local extent
-		    _localModuleExtent[0] = _padRowLayout->getPlaneExtent()[0] - _border;//xMin
-		    _localModuleExtent[1] = _padRowLayout->getPlaneExtent()[1] + _border;//xMax
-		    _localModuleExtent[2] = _padRowLayout->getPlaneExtent()[2] - _border;//yMin
-		    _localModuleExtent[3] = _padRowLayout->getPlaneExtent()[3] + _border;//yMax
+		    localModuleExtent[0] = _padRowLayout->getPlaneExtent()[0] - _border;//xMin
+		    localModuleExtent[1] = _padRowLayout->getPlaneExtent()[1] + _border;//xMax
+		    localModuleExtent[2] = _padRowLayout->getPlaneExtent()[2] - _border;//yMin
+		    localModuleExtent[3] = _padRowLayout->getPlaneExtent()[3] + _border;//yMax
 		}
 		break;
 		default:
@@ -266,15 +270,15 @@ namespace gear {
 		{
 		    case PadRowLayout2D::POLAR :
 		    {
-			_moduleExtent= calculateGlobalExtentPolarPolar( _localModuleExtent );
-			_planeExtent=  calculateGlobalExtentPolarPolar( _padRowLayout->getPlaneExtent() );
+			moduleExtent= calculateGlobalExtentPolarPolar( localModuleExtent );
+			planeExtent=  calculateGlobalExtentPolarPolar( _padRowLayout->getPlaneExtent() );
 		    }
 		    break;
 		    case  PadRowLayout2D::CARTESIAN :
 			throw gear::NotImplementedException("TPCModuleImpl::convertLocalPlaneToGlobalPlaneExtend: not implemented for global polar/cartesian coordinates.");
 //		    {
-//			_moduleExtent= calculateGlobalExtentPolarCartesian( _localModuleExtent );
-//			_planeExtent=  calculateGlobalExtentPolarCartesian( _padRowLayout->getPlaneExtent() );
+//			moduleExtent= calculateGlobalExtentPolarCartesian( localModuleExtent );
+//			planeExtent=  calculateGlobalExtentPolarCartesian( _padRowLayout->getPlaneExtent() );
 //		    }
 		    break;
 		    default:
@@ -289,14 +293,14 @@ namespace gear {
 		{
 		    case PadRowLayout2D::POLAR :
 		    {
-			_moduleExtent= calculateGlobalExtentCartesianPolar( _localModuleExtent );
-			_planeExtent=  calculateGlobalExtentCartesianPolar( _padRowLayout->getPlaneExtent() );
+			moduleExtent= calculateGlobalExtentCartesianPolar( localModuleExtent );
+			planeExtent=  calculateGlobalExtentCartesianPolar( _padRowLayout->getPlaneExtent() );
 		    }
 		    break;
 		    case  PadRowLayout2D::CARTESIAN :
 		    {
-			_moduleExtent= calculateGlobalExtentCartesianCartesian( _localModuleExtent );
-			_planeExtent=  calculateGlobalExtentCartesianCartesian( _padRowLayout->getPlaneExtent() );
+			moduleExtent= calculateGlobalExtentCartesianCartesian( localModuleExtent );
+			planeExtent=  calculateGlobalExtentCartesianCartesian( _padRowLayout->getPlaneExtent() );
 		    }
 		    break;
 		    default:
@@ -307,7 +311,10 @@ namespace gear {
 	    default:
 		throw gear::Exception("TPCModuleImpl::convertLocalPlaneToGlobalPlaneExtend(): unkown coorinate type");	
 	}// switch _momsCoordinateType
-	
+
+	_localModuleExtent.swap( localModuleExtent );
+	_moduleExtent.swap( moduleExtent );
+	_planeExtent.swap( planeExtent );
 
 	//   	throw gear::Exception("TPCModuleImpl::convertLocalPlaneToGlobalPlaneExtend:This Has Not Been Implimented");
     }
@@ -1200,14 +1207,26 @@ namespace gear {
     }
 
     TPCModuleImpl::TPCModuleImpl(const TPCModuleImpl &right)
+	: GearParameters( right ), PadRowLayout2D( right ),
+	  GearParametersImpl( right ), TPCModule( right )
     {
 	copy_and_assign( right);
     }
 
     TPCModuleImpl & TPCModuleImpl::operator = (const TPCModuleImpl &right)
     {
-	cleanup();
-	copy_and_assign( right);
+	if (this != &right)
+	{
+	    // everything that can fail is done before this module is changed
+	    TPCModuleImpl copy( right );
+	    GearParametersImpl::operator=( copy );
+
+	    _planeExtent.swap( copy._planeExtent );
+	    _moduleExtent.swap( copy._moduleExtent );
+	    _localModuleExtent.swap( copy._localModuleExtent );
+	    std::swap( _padRowLayout, copy._padRowLayout );
+	    copy_values( right );
+	}
 	return *this;
     }
 
@@ -1216,6 +1235,14 @@ namespace gear {
 	_planeExtent  = right._planeExtent;
 	_moduleExtent = right._moduleExtent;
 	_localModuleExtent = right._localModuleExtent;
+	copy_values( right );
+
+	// test all knows possible instances of padRowLayout
+	_padRowLayout = right._padRowLayout->clone();
+    }
+
+    void TPCModuleImpl::copy_values(const  TPCModuleImpl & right)
+    {
 	_readoutFrequency = right._readoutFrequency;
 	_offset = right._offset;
 	_offset_cartesian = right._offset_cartesian;
@@ -1229,9 +1256,6 @@ namespace gear {
 
 	_zPosition = right._zPosition;
 	_zPositionIsSet = right._zPositionIsSet;
-
-	// test all knows possible instances of padRowLayout
-	_padRowLayout = right._padRowLayout->clone();
     }
 
 
@@ -1471,13 +1495,25 @@ namespace gear {
     }
 
     void TPCModuleImpl::setBorderWidth(double border) {
+	const double oldBorder = _border;
 	_border = border;
 	// recalculate the plane extents
-	convertLocalPlaneToGlobalPlaneExtend();
+	try
+	{
+	    convertLocalPlaneToGlobalPlaneExtend();
+	}
+	catch (...)
+	{
+	    _border = oldBorder;
+	    throw;
+	}
     }
  
     void TPCModuleImpl::setOffset(double x_r, double y_phi)
     {
+	const gear::Vector2D oldOffset = _offset;
+	const gear::Vector2D oldOffset_cartesian = _offset_cartesian;
+
 	_offset[0] = x_r;
 	_offset[1] = y_phi;
 
@@ -1496,27 +1532,69 @@ namespace gear {
 	    }
 	    break;
 	    default:
+		_offset = oldOffset;
 		throw gear::Exception("TPCModuleImpl::globalToLocal: unkown coorinate type");	
 	}
 	// recalculate the plane extents
 	checkLocalIsGlobal();
-	convertLocalPlaneToGlobalPlaneExtend();
+	try
+	{
+	    convertLocalPlaneToGlobalPlaneExtend();
+	}
+	catch (...)
+	{
+	    _offset = oldOffset;
+	    _offset_cartesian = oldOffset_cartesian;
+	    checkLocalIsGlobal();
+	    throw;
+	}
     }
 
     void TPCModuleImpl::setZPosition(double z)
     {
+      const double oldZPosition = _zPosition;
       _zPosition = z;
+
+      // The half of the TPC decides about the orientation of the module, so the extents
+      // have to be recalculated (there is no calculation for cartesian pads in polar coordinates).
+      checkLocalIsGlobal();
+      if ( !( _momsCoordinateType == PadRowLayout2D::POLAR &&
+	      _padRowLayout->getCoordinateType() == PadRowLayout2D::CARTESIAN ) )
+      {
+	try
+	{
+	  convertLocalPlaneToGlobalPlaneExtend();
+	}
+	catch (...)
+	{
+	  _zPosition = oldZPosition;
+	  checkLocalIsGlobal();
+	  throw;
+	}
+      }
       _zPositionIsSet = true;
     }
 
     void TPCModuleImpl::setAngle(double angle)
     {
+	const double oldAngle = _angle;
 	_angle= angle;
 	_cos_angle =  std::cos( angle );
 	_sin_angle =  std::sin( angle );
 	// recalculate the plane extents
 	checkLocalIsGlobal();
-	convertLocalPlaneToGlobalPlaneExtend();
+	try
+	{
+	    convertLocalPlaneToGlobalPlaneExtend();
+	}
+	catch (...)
+	{
+	    _angle = oldAngle;
+	    _cos_angle =  std::cos( oldAngle );
+	    _sin_angle =  std::sin( oldAngle );
+	    checkLocalIsGlobal();
+	    throw;
+	}
     }
     
     void TPCModuleImpl::setReadoutFrequency(double frequency) 
-- 
2.43.0


From 30056a1e1f32aa99b2862d9561ac8f299ab41c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:33 +0000
Subject: [PATCH 13/40] fix: pad rows are complete before they are handed out,
 and pad layouts copy completely

getPadsInRow() published the vector before it was filled, copied
RectangularPadRowLayouts reported empty rows, failed assignments left dangling
pointers and refused or failed addRow() and repeatRows() a half changed layout.
---
 .../gear/gearimpl/FixedPadAngleDiskLayout.h   |   4 +
 .../gear/gearimpl/FixedPadSizeDiskLayout.h    |   4 +
 .../gear/gearimpl/RectangularPadRowLayout.h   |   4 +
 .../gear/gearimpl/VersatileDiskRowLayout.h    |   4 +
 src/gearimpl/FixedPadAngleDiskLayout.cc       |  79 ++++++++------
 src/gearimpl/FixedPadSizeDiskLayout.cc        |  61 +++++++----
 src/gearimpl/RectangularPadRowLayout.cc       | 102 +++++++++++++-----
 src/gearimpl/VersatileDiskRowLayout.cc        |  76 ++++++++-----
 8 files changed, 225 insertions(+), 109 deletions(-)

diff --git a/include/gear/gearimpl/FixedPadAngleDiskLayout.h b/include/gear/gearimpl/FixedPadAngleDiskLayout.h
index 7ef77fe..0b73286 100644
--- a/include/gear/gearimpl/FixedPadAngleDiskLayout.h
+++ b/include/gear/gearimpl/FixedPadAngleDiskLayout.h
@@ -50,6 +50,10 @@ namespace gear {
    */
   void copy_and_assign(const  FixedPadAngleDiskLayout & );
 
+  /** the part of copy_and_assign() that cannot fail: all variables which are no containers or pointers
+   */
+  void copy_values(const  FixedPadAngleDiskLayout & );
+
   /** Function to delete all the objects
    *  pointed to and owned by the FixedPadAngleDiskLayout.
    *  Used by destructor and assignment operator to avoid code duplication.
diff --git a/include/gear/gearimpl/FixedPadSizeDiskLayout.h b/include/gear/gearimpl/FixedPadSizeDiskLayout.h
index 1d17b44..4a782c4 100644
--- a/include/gear/gearimpl/FixedPadSizeDiskLayout.h
+++ b/include/gear/gearimpl/FixedPadSizeDiskLayout.h
@@ -52,6 +52,10 @@ namespace gear {
    */
   void copy_and_assign(const  FixedPadSizeDiskLayout & );
 
+  /** the part of copy_and_assign() that cannot fail: all variables which are no containers or pointers
+   */
+  void copy_values(const  FixedPadSizeDiskLayout & );
+
   /** function to delete all the objects
    *  pointed to and owned by the FixedPadSizeDiskLayout.
    *  Used by desctructor and assigment operator to avoid code duplication
diff --git a/include/gear/gearimpl/RectangularPadRowLayout.h b/include/gear/gearimpl/RectangularPadRowLayout.h
index f66ba32..faa63fc 100644
--- a/include/gear/gearimpl/RectangularPadRowLayout.h
+++ b/include/gear/gearimpl/RectangularPadRowLayout.h
@@ -55,6 +55,10 @@ namespace gear {
      */
      void copy_and_assign(const RectangularPadRowLayout & );
 
+     /** the part of copy_and_assign() that cannot fail: all variables which are no containers or pointers
+      */
+     void copy_values(const RectangularPadRowLayout & );
+
     /** function to delete all the objects
      *  pointed to and owned by the GearMgr.
      *  Used by desctructor and assigment operator to avoid code duplication
diff --git a/include/gear/gearimpl/VersatileDiskRowLayout.h b/include/gear/gearimpl/VersatileDiskRowLayout.h
index ad9b824..a71e231 100644
--- a/include/gear/gearimpl/VersatileDiskRowLayout.h
+++ b/include/gear/gearimpl/VersatileDiskRowLayout.h
@@ -93,6 +93,10 @@ class VersatileDiskRowLayout : public FixedDiskLayoutBase {
 	 */
 	void copy_and_assign(const  VersatileDiskRowLayout & );
 
+/** the part of copy_and_assign() that cannot fail: all variables which are no containers or pointers
+ */
+void copy_values(const  VersatileDiskRowLayout & );
+
 	/** function to delete all the objects
 	 *  pointed to and owned by the VersatileDiskRowLayout.
 	 *  Used by desctructor and assigment operator to avoid code duplication
diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index 33bd24c..ea21615 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -1,5 +1,7 @@
 #include "gearimpl/FixedPadAngleDiskLayout.h"
 
+#include <memory>
+#include <mutex>
 #include <cmath>
 #include <math.h>
 #include <iostream>
@@ -7,6 +9,12 @@
 #include <stdexcept>
 
 namespace gear {
+
+  namespace {
+    /** Protects the pad indices, that are created when they are requested for the first time.
+     */
+    std::mutex padIndicesMutex ;
+  }
   
   FixedPadAngleDiskLayout::~FixedPadAngleDiskLayout()
   {
@@ -114,12 +122,30 @@ namespace gear {
 
   FixedPadAngleDiskLayout & FixedPadAngleDiskLayout::operator = ( const FixedPadAngleDiskLayout & right) 
   {
-      cleanup();
-      copy_and_assign(right);
+      if( this != &right ) {
+        // everything that can fail is done before this layout is changed
+        FixedPadAngleDiskLayout copy( right ) ;
+
+        _extent.swap( copy._extent ) ;
+        _padIndices.swap( copy._padIndices ) ;
+        copy_values( right ) ;
+      }
       return *this;
   }
 
   void FixedPadAngleDiskLayout::copy_and_assign(const  FixedPadAngleDiskLayout & right)
+  {
+      copy_values(right);
+      _extent = right._extent;
+
+      // just set the _padIndices to an vector of empty entries.
+      // In every instance, also the copied ones, it is filled only at first
+      // usage to save memory
+      // just like in the constructor
+      _padIndices.assign( _nRow , static_cast<std::vector<int>*>(0) ) ;
+  }
+
+  void FixedPadAngleDiskLayout::copy_values(const  FixedPadAngleDiskLayout & right)
   {
       _padAngle = right._padAngle;
       _rMin = right._rMin;
@@ -128,24 +154,8 @@ namespace gear {
       _rowHeight = right._rowHeight;
       _phiMin = right._phiMin;
       _phiMax = right._phiMax;
-
       _nPad = right._nPad;
       _nPadsInRow = right._nPadsInRow;
-
-      _extent = right._extent;
-
-      // just set the _padIndices to an vector of empty entries.
-      // In every instance, also the copied ones, it is filled only at first
-      // usage to save memory
-      // just like in the constructor
-      _padIndices.resize( _nRow ) ;
-      for (std::vector< std::vector<int>* >::iterator rowIter = _padIndices.begin() ; 
-	   rowIter < _padIndices.end(); rowIter++)
-      {
-	  *rowIter=0;
-      }
-      
-     
   }
   
   Vector2D FixedPadAngleDiskLayout::getPadCenter(int padIndex)  const {
@@ -162,28 +172,35 @@ namespace gear {
 
   const std::vector<int>& FixedPadAngleDiskLayout::getPadsInRow(int rowNumber) const {
 
-    static std::vector<int> empty ;
-    try 
-    {
-      if( _padIndices.at(rowNumber )  == 0 ) 
-      {
-	  _padIndices[ rowNumber ]  = new std::vector<int>( _nPadsInRow )  ;
-	
-	for(int i = 0 ; i < _nPadsInRow ; i++)
-	{
-	  _padIndices[rowNumber]->operator[](i)  = getPadIndex( rowNumber , i  ) ;
+    static const std::vector<int> empty ;
+
+    // several threads may ask for the same row at the same time
+    std::lock_guard<std::mutex> lock( padIndicesMutex ) ;
+
+    try {
+
+      if( _padIndices.at(rowNumber )  == 0 ) {
+
+	int nPad = _nPadsInRow ;
+
+	// the row is complete before it is visible
+	std::unique_ptr< std::vector<int> > padIndices( new std::vector<int>( nPad ) ) ;
+
+	for(int i = 0 ; i < nPad ; i++){
+
+	  padIndices->operator[](i)  = getPadIndex( rowNumber , i  ) ;
 	}
-	
+
+	_padIndices[ rowNumber ] = padIndices.release() ;
       }
     } catch( std::out_of_range& r) {
-      
+
       //       std::cout << " FixedPadAngleDiskLayout::getPadsInRow : no row " << rowNumber << std::endl ;
       return empty ;
 
     }
 
     return *_padIndices[ rowNumber ] ;
-
   }
 
   int FixedPadAngleDiskLayout::getPadIndex(int rowNum, int padNum) const {
diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index 7466118..e78337b 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -1,5 +1,7 @@
 #include "gearimpl/FixedPadSizeDiskLayout.h"
 
+#include <memory>
+#include <mutex>
 #include <cmath>
 #include <math.h>
 #include <iostream>
@@ -8,6 +10,12 @@
 
 namespace gear {
 
+  namespace {
+    /** Protects the pad indices, that are created when they are requested for the first time.
+     */
+    std::mutex padIndicesMutex ;
+  }
+
   FixedPadSizeDiskLayout::~FixedPadSizeDiskLayout()
   {
       cleanup();
@@ -125,12 +133,32 @@ namespace gear {
 
   FixedPadSizeDiskLayout & FixedPadSizeDiskLayout::operator = ( const FixedPadSizeDiskLayout & right)
   {
-      cleanup();
-      copy_and_assign(right);
+      if( this != &right ) {
+        // everything that can fail is done before this layout is changed
+        FixedPadSizeDiskLayout copy( right ) ;
+
+        _rows.swap( copy._rows ) ;
+        _extent.swap( copy._extent ) ;
+        _padIndices.swap( copy._padIndices ) ;
+        copy_values( right ) ;
+      }
       return *this;
   }
 
   void FixedPadSizeDiskLayout::copy_and_assign(const  FixedPadSizeDiskLayout & right)
+  {
+      copy_values(right);
+      _rows = right._rows;
+      _extent = right._extent;
+
+      // just set the _padIndices to an vector of empty entries.
+      // In every instance, also the copied ones, it is filled only at first
+      // usage to save memory
+      // just like in the constructor
+      _padIndices.assign( _nRow , static_cast<std::vector<int>*>(0) ) ;
+  }
+
+  void FixedPadSizeDiskLayout::copy_values(const  FixedPadSizeDiskLayout & right)
   {
       _rMin = right._rMin;
       _rMax = right._rMax;
@@ -141,21 +169,6 @@ namespace gear {
       _padGap = right._padGap;
       _nRow = right._nRow;
       _nPad = right._nPad;
-      _rows = right._rows;
-      _extent = right._extent;
-
-      // just set the _padIndices to an vector of empty entries.
-      // In every instance, also the copied ones, it is filled only at first
-      // usage to save memory
-      // just like in the constructor
-      _padIndices.resize( _nRow ) ;
-      for (std::vector< std::vector<int>* >::iterator rowIter = _padIndices.begin() ;
-	   rowIter < _padIndices.end(); rowIter++)
-      {
-	  *rowIter=0;
-      }
-
-
   }
 
   int FixedPadSizeDiskLayout::getNRows() const {
@@ -210,19 +223,26 @@ namespace gear {
 
   const std::vector<int>& FixedPadSizeDiskLayout::getPadsInRow(int rowNumber) const {
 
-    static std::vector<int> empty ;
+    static const std::vector<int> empty ;
+
+    // several threads may ask for the same row at the same time
+    std::lock_guard<std::mutex> lock( padIndicesMutex ) ;
+
     try {
+
       if( _padIndices.at(rowNumber )  == 0 ) {
 
 	int nPad = _rows.at(rowNumber).NPad ;
 
-	_padIndices[ rowNumber ]  = new std::vector<int>( nPad )  ;
+	// the row is complete before it is visible
+	std::unique_ptr< std::vector<int> > padIndices( new std::vector<int>( nPad ) ) ;
 
 	for(int i = 0 ; i < nPad ; i++){
 
-	  _padIndices[rowNumber]->operator[](i)  = getPadIndex( rowNumber , i  ) ;
+	  padIndices->operator[](i)  = getPadIndex( rowNumber , i  ) ;
 	}
 
+	_padIndices[ rowNumber ] = padIndices.release() ;
       }
     } catch( std::out_of_range& r) {
 
@@ -232,7 +252,6 @@ namespace gear {
     }
 
     return *_padIndices[ rowNumber ] ;
-
   }
 
   int FixedPadSizeDiskLayout::getPadIndex(int rowNum, int padNum) const {
diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 4be80a1..c431375 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -1,5 +1,8 @@
 #include "gearimpl/RectangularPadRowLayout.h"
 
+#include <memory>
+#include <mutex>
+#include <algorithm>
 #include <cmath>
 #include <math.h>
 #include <iostream>
@@ -9,6 +12,21 @@
 #include <cstdlib>
 
 namespace gear {
+
+  namespace {
+    /** Protects the pad indices, that are created when they are requested for the first time.
+     */
+    std::mutex padIndicesMutex ;
+
+    /** Make sure that n more elements can be added without allocating memory.
+     */
+    template <class T>
+    void reserveForMore( std::vector<T>& vec , size_t n ) {
+
+      if( vec.capacity() - vec.size() < n )
+	vec.reserve( std::max( vec.size() + n , 2 * vec.size() ) ) ;
+    }
+  }
   
     
   
@@ -33,9 +51,7 @@ namespace gear {
 
   void RectangularPadRowLayout::copy_and_assign(const RectangularPadRowLayout & right)
   {
-      _nRow = right._nRow;
-      _nPad = right._nPad;
-      _repeatRows = right._repeatRows;
+      copy_values(right);
       _rows = right._rows;
       _extent = right._extent;
       _nRows = right._nRows;
@@ -44,12 +60,14 @@ namespace gear {
       // In every instance, also the copied ones, it is filled only at first
       // usage to save memory
       // just like in the constructor
-      _padIndices.resize( _nRow ) ;
-      for (std::vector< std::vector<int>* >::iterator rowIter = _padIndices.begin() ; 
-	   rowIter < _padIndices.end(); rowIter++)
-      {
-	  *rowIter=0;
-      }
+      _padIndices.assign( _rows.size() , static_cast<std::vector<int>*>(0) ) ;
+  }
+
+  void RectangularPadRowLayout::copy_values(const RectangularPadRowLayout & right)
+  {
+      _nRow = right._nRow;
+      _nPad = right._nPad;
+      _repeatRows = right._repeatRows;
   }
    
     PadRowLayout2D* RectangularPadRowLayout::clone() const
@@ -89,8 +107,6 @@ namespace gear {
 
     Row row ; 
 
-    _nPad += abs( nRow ) * abs( nPad )  ;
-    
     row.WidthPerPad = rowWidth / nPad ;
 
     if( rowHeight == 0.0 ) 
@@ -115,6 +131,12 @@ namespace gear {
     row.LeftOffset =  leftOffset ;
     row.RightOffset = rightOffset  ;
     
+    // everything that can fail has to be done before the layout is changed
+    reserveForMore( _rows , nRow ) ;
+    reserveForMore( _padIndices , nRow ) ;
+    reserveForMore( _nRows , 1 ) ;
+
+    _nPad += abs( nRow ) * abs( nPad )  ;
 
     for( int i = 0 ; i < nRow ; i++ ) {
 
@@ -136,9 +158,18 @@ namespace gear {
     if( _repeatRows > 0  ) // ignore all but first call
       return ;
 
-    _repeatRows = count ;
-    
+    if( count == 0 )
+      return ;
+
     int nRow = _rows.size() ;
+
+    // either all rows are repeated or none
+    const size_t nNew = static_cast<size_t>( count - 1 ) * nRow ;
+    reserveForMore( _rows , nNew ) ;
+    reserveForMore( _padIndices , nNew ) ;
+    reserveForMore( _nRows , nNew ) ;
+
+    _repeatRows = count ;
     
     for(unsigned i=0 ; i< count-1 ; ++i ){
       for(int j=0 ; j< nRow; ++j ){
@@ -212,8 +243,16 @@ namespace gear {
     
     RectangularPadRowLayout & RectangularPadRowLayout::operator = (const  RectangularPadRowLayout & right)
     {
-	cleanup();
-	copy_and_assign(right);
+	if( this != &right ) {
+	  // everything that can fail is done before this layout is changed
+	  RectangularPadRowLayout copy( right ) ;
+
+	  _rows.swap( copy._rows ) ;
+	  _extent.swap( copy._extent ) ;
+	  _nRows.swap( copy._nRows ) ;
+	  _padIndices.swap( copy._padIndices ) ;
+	  copy_values( right ) ;
+	}
 	return *this;
     }
 
@@ -225,30 +264,35 @@ namespace gear {
   }
 
   const std::vector<int>& RectangularPadRowLayout::getPadsInRow(int rowNumber) const {
-    
-    static std::vector<int> empty ;
-    
+
+    static const std::vector<int> empty ;
+
+    // several threads may ask for the same row at the same time
+    std::lock_guard<std::mutex> lock( padIndicesMutex ) ;
+
     try {
-      
+
       if( _padIndices.at(rowNumber )  == 0 ) {
-	
+
 	int nPad = _rows.at(rowNumber).NPad ;
-	
-	_padIndices[ rowNumber ]  = new std::vector<int>( nPad )  ;
-	
+
+	// the row is complete before it is visible
+	std::unique_ptr< std::vector<int> > padIndices( new std::vector<int>( nPad ) ) ;
+
 	for(int i = 0 ; i < nPad ; i++){
-	  
-	  _padIndices[rowNumber]->operator[](i)  = getPadIndex( rowNumber , i  ) ;
+
+	  padIndices->operator[](i)  = getPadIndex( rowNumber , i  ) ;
 	}
-	
+
+	_padIndices[ rowNumber ] = padIndices.release() ;
       }
     } catch( std::out_of_range& r) {
-      
+
       //       std::cout << " RectangularPadRowLayout::getPadsInRow : no row " << rowNumber << std::endl ;
       return empty ;
-      
+
     }
-    
+
     return *_padIndices[ rowNumber ] ;
   }
   
diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index b25d5cc..9e5fc12 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -1,14 +1,22 @@
 #include "gearimpl/VersatileDiskRowLayout.h"
 
+#include <memory>
+#include <mutex>
 #include <cmath>
 #include <iostream>
-//#include <stdexcept>
+#include <stdexcept>
 #include <sstream>
 #include <string>
 //#include <cstdlib>
 #include <gear/GEAR.h>
 
 namespace gear {
+
+  namespace {
+    /** Protects the pad indices, that are created when they are requested for the first time.
+     */
+    std::mutex padIndicesMutex ;
+  }
   
 VersatileDiskRowLayout::VersatileDiskRowLayout( double rMin ) :
     _nPad(0), _isFrayed(false)
@@ -28,8 +36,7 @@ VersatileDiskRowLayout::VersatileDiskRowLayout( const VersatileDiskRowLayout & r
 
 void VersatileDiskRowLayout::copy_and_assign(const VersatileDiskRowLayout & right)
 {
-    _isFrayed = right._isFrayed;
-    _nPad = right._nPad;
+    copy_values(right);
     _rows = right._rows;
     _extent = right._extent;
 
@@ -37,12 +44,13 @@ void VersatileDiskRowLayout::copy_and_assign(const VersatileDiskRowLayout & righ
     // In every instance, also the copied ones, it is filled only at first
     // usage to save memory
     // just like in the constructor
-    _padIndices.resize( _rows.size() ) ;
-    for (std::vector< std::vector<int>* >::iterator rowIter = _padIndices.begin() ; 
-	 rowIter < _padIndices.end(); rowIter++)
-    {
-	*rowIter=0;
-    }
+    _padIndices.assign( _rows.size() , static_cast<std::vector<int>*>(0) ) ;
+}
+
+void VersatileDiskRowLayout::copy_values(const VersatileDiskRowLayout & right)
+{
+    _isFrayed = right._isFrayed;
+    _nPad = right._nPad;
 }
    
 PadRowLayout2D* VersatileDiskRowLayout::clone() const
@@ -170,8 +178,15 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
     
     VersatileDiskRowLayout & VersatileDiskRowLayout::operator = (const  VersatileDiskRowLayout & right)
     {
-	cleanup();
-	copy_and_assign(right);
+	if( this != &right ) {
+	  // everything that can fail is done before this layout is changed
+	  VersatileDiskRowLayout copy( right ) ;
+
+	  _rows.swap( copy._rows ) ;
+	  _extent.swap( copy._extent ) ;
+	  _padIndices.swap( copy._padIndices ) ;
+	  copy_values( right ) ;
+	}
 	return *this;
     }
 
@@ -183,30 +198,35 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
   }
 
   const std::vector<int>& VersatileDiskRowLayout::getPadsInRow(int rowNumber) const {
-    
-    static std::vector<int> empty ;
-    
+
+    static const std::vector<int> empty ;
+
+    // several threads may ask for the same row at the same time
+    std::lock_guard<std::mutex> lock( padIndicesMutex ) ;
+
     try {
-      
+
       if( _padIndices.at(rowNumber )  == 0 ) {
-	
-	  int nPad = _rows.at(rowNumber).getNPads() ;
-	
-	  _padIndices[ rowNumber ]  = new std::vector<int>( nPad )  ;
-	  
-	  for(int i = 0 ; i < nPad ; i++){
-	      
-	      _padIndices[rowNumber]->operator[](i)  = getPadIndex( rowNumber , i  ) ;
-	  }
-	  
+
+	int nPad = _rows.at(rowNumber).getNPads() ;
+
+	// the row is complete before it is visible
+	std::unique_ptr< std::vector<int> > padIndices( new std::vector<int>( nPad ) ) ;
+
+	for(int i = 0 ; i < nPad ; i++){
+
+	  padIndices->operator[](i)  = getPadIndex( rowNumber , i  ) ;
+	}
+
+	_padIndices[ rowNumber ] = padIndices.release() ;
       }
     } catch( std::out_of_range& r) {
-      
+
       //       std::cout << " VersatileDiskRowLayout::getPadsInRow : no row " << rowNumber << std::endl ;
       return empty ;
-      
+
     }
-    
+
     return *_padIndices[ rowNumber ] ;
   }
   
-- 
2.43.0


From b6e50b3671a62a0fce3534f57f2dcf154f3e7f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:26 +0000
Subject: [PATCH 14/40] fix: concurrent readers and sessions do not write to
 shared state

Calorimeter extents, the map of pad layout handlers and the map of parameter
handlers were modified by const queries and by the first use in each thread.
---
 src/gearimpl/CalorimeterParametersImpl.cc | 27 +++++++++++++++--------
 src/gearxml/PadRowLayout2DXML.cc          | 22 ++++++++++--------
 src/gearxml/XMLHandlerMgr.cc              |  4 +++-
 3 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/src/gearimpl/CalorimeterParametersImpl.cc b/src/gearimpl/CalorimeterParametersImpl.cc
index 946cb0a..e2a6cd2 100644
--- a/src/gearimpl/CalorimeterParametersImpl.cc
+++ b/src/gearimpl/CalorimeterParametersImpl.cc
@@ -1,7 +1,14 @@
 #include "gearimpl/CalorimeterParametersImpl.h"
 
+#include <mutex>
+
 namespace gear{
 
+    namespace {
+      /** Protects the update of the extent, that is done when it is requested.
+       */
+      std::mutex extentMutex ;
+    }
 
     CalorimeterParametersImpl::CalorimeterParametersImpl(double rMin, double zMax, int symOrder, double phi0) :
 	_type( CalorimeterParameters::BARREL) ,
@@ -38,16 +45,18 @@ namespace gear{
 
     if(  nLayer > 0 ) {
 
-      if( _type == CalorimeterParameters::BARREL ) { 
+      // the first layer starts at rMin (zMin) and the last layer ends at its distance from the origin plus its thickness 
 
-	// the first layer starts at rMin and the last layer ends at its distance from the origin plus its thickness 
-	
-	_extent[1] = _layout.getDistance( nLayer-1 )  +  _layout.getThickness( nLayer-1 )  ;
-	
-      } else {
-	
-	_extent[3] = _layout.getDistance( nLayer-1 )  +  _layout.getThickness( nLayer-1 )  ;
-      }
+      const double end = _layout.getDistance( nLayer-1 )  +  _layout.getThickness( nLayer-1 )  ;
+
+      // several threads may query the same calorimeter: only write if the layers have changed, as
+      // references to the extent have been handed out already
+      std::lock_guard<std::mutex> lock( extentMutex ) ;
+
+      double& extent = _extent[ _type == CalorimeterParameters::BARREL ? 1 : 3 ] ;
+
+      if( extent != end )
+	extent = end ;
     }
 
     return _extent ; 
diff --git a/src/gearxml/PadRowLayout2DXML.cc b/src/gearxml/PadRowLayout2DXML.cc
index 40baad2..e133d36 100644
--- a/src/gearxml/PadRowLayout2DXML.cc
+++ b/src/gearxml/PadRowLayout2DXML.cc
@@ -14,7 +14,11 @@ namespace gear {
   
   PadRowLayout2DXML* PadRowLayout2DXML::getHandler( const std::string& typeName ) {
 
-    return PadRowLayout2DXML::map()[ typeName ] ;
+    const Map& handlers = PadRowLayout2DXML::map() ;
+
+    Map::const_iterator it = handlers.find( typeName ) ;
+
+    return it != handlers.end() ? it->second : 0 ;
   }
 
   PadRowLayout2DXML* PadRowLayout2DXML::getHandler(const PadRowLayout2D* l ) {
@@ -42,19 +46,19 @@ namespace gear {
 
   PadRowLayout2DXML::Map& PadRowLayout2DXML::map() {
     
-    static  PadRowLayout2DXML::Map theMap ;
     static FixedPadSizeDiskLayoutXML  aFixedPadSizeDiskLayoutXML ;
     static FixedPadAngleDiskLayoutXML  aFixedPadAngleDiskLayoutXML ;
     static RectangularPadRowLayoutXML aRectangularPadRowLayoutXML ;
     static VersatileDiskRowLayoutXML aVersatileDiskRowLayoutXML ;
 
-    if( theMap.size() == 0 ) {
-      
-      theMap["FixedPadSizeDiskLayout"] = & aFixedPadSizeDiskLayoutXML ;
-      theMap["FixedPadAngleDiskLayout"] = & aFixedPadAngleDiskLayoutXML ;
-      theMap["RectangularPadRowLayout"] = & aRectangularPadRowLayoutXML ;
-      theMap["VersatileDiskRowLayout"] = & aVersatileDiskRowLayoutXML ;
-    }
+    // complete as soon as it is visible, also if this is called from several threads
+    static  PadRowLayout2DXML::Map theMap = {
+      { "FixedPadSizeDiskLayout" , & aFixedPadSizeDiskLayoutXML } ,
+      { "FixedPadAngleDiskLayout" , & aFixedPadAngleDiskLayoutXML } ,
+      { "RectangularPadRowLayout" , & aRectangularPadRowLayoutXML } ,
+      { "VersatileDiskRowLayout" , & aVersatileDiskRowLayoutXML } 
+    } ;
+
     return theMap ;
   }
 
diff --git a/src/gearxml/XMLHandlerMgr.cc b/src/gearxml/XMLHandlerMgr.cc
index 710c9c1..6560c07 100644
--- a/src/gearxml/XMLHandlerMgr.cc
+++ b/src/gearxml/XMLHandlerMgr.cc
@@ -58,7 +58,9 @@ namespace gear{
   
   const XMLHandler* XMLHandlerMgr::getHandler( const std::string& type ) {
 
-    return _map[ type ] ;
+    XMLHandlerMap::const_iterator it = _map.find( type ) ;
+
+    return it != _map.end() ? it->second : 0 ;
   }
   
   
-- 
2.43.0


From 24d04736e796f01cd591f1af93663d7e77bb3b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:54 +0000
Subject: [PATCH 15/40] fix: drift velocities, readout frequencies, strings and
 thin layers are read back as they were saved

The drift velocity was not read for segmented readouts, readout frequencies
were truncated to int, strings lost everything after a blank, empty strings and
vectors vanished, "&#x" in strings was not encoded and calorimeter layers that
differ by less than 1e-4 were merged.
---
 src/gearxml/CalorimeterParametersXML.cc |  3 ++-
 src/gearxml/GearParametersXML.cc        | 15 +++++++-------
 src/gearxml/TPCModuleXML.cc             |  2 +-
 src/gearxml/TPCParametersXML.cc         |  3 +++
 src/gearxml/tinyxml.cc                  | 27 +++----------------------
 5 files changed, 16 insertions(+), 34 deletions(-)

diff --git a/src/gearxml/CalorimeterParametersXML.cc b/src/gearxml/CalorimeterParametersXML.cc
index dad9cf6..2fea88c 100644
--- a/src/gearxml/CalorimeterParametersXML.cc
+++ b/src/gearxml/CalorimeterParametersXML.cc
@@ -16,7 +16,8 @@
 #include <math.h>
 #include <string>
 
-#define _EPSILON 0.0001
+// layers that are described by one repeated layer have to be the same within the precision of the file
+#define _EPSILON 1.e-9
 
 
 namespace gear {
diff --git a/src/gearxml/GearParametersXML.cc b/src/gearxml/GearParametersXML.cc
index e04a9a8..732c437 100644
--- a/src/gearxml/GearParametersXML.cc
+++ b/src/gearxml/GearParametersXML.cc
@@ -244,17 +244,16 @@ namespace gear {
       std::for_each( value.begin(), value.end(), t ) ; 
 
 
-	  // fg: protect against empty value strings  in the gear file
-	  if( stringValues.size() == 0 )
-
-		  continue ;
-
- 
-
       std::string name = getXMLAttribute( par, "name" ) ;
       std::string type = getXMLAttribute( par, "type" ) ;
 
 
+      // fg: protect against empty value strings  in the gear file
+      // - only for strings and vectors this is a value 
+      if( stringValues.size() == 0 && ( type == "int" || type == "double" ) )
+	continue ;
+
+
       if( type == "int" ){
 
 	gearParams->setIntVal( name ,  intVal( stringValues[0] )   )   ;
@@ -265,7 +264,7 @@ namespace gear {
 	
       } else if( type == "string" ){
 	
-	gearParams->setStringVal( name ,  stringValues[0]    )   ;
+	gearParams->setStringVal( name ,  value  )   ;
 	
       } else if( type == "IntVec" ){
 
diff --git a/src/gearxml/TPCModuleXML.cc b/src/gearxml/TPCModuleXML.cc
index 2ff34ba..b9e9061 100644
--- a/src/gearxml/TPCModuleXML.cc
+++ b/src/gearxml/TPCModuleXML.cc
@@ -99,7 +99,7 @@ TPCModule* TPCModuleXML::fromXML( const TiXmlElement* moduleElement ,
     {
 	throw ParseException("TPCModuleXML: No readoutFrequency in TPCModule" ) ;
     }
-    double 	readoutFrequency = atoi( getXMLAttribute( readoutFrequencyElement , "value" ).c_str() );
+    double 	readoutFrequency = atof( getXMLAttribute( readoutFrequencyElement , "value" ).c_str() );
     
     // get the pad layout
     const TiXmlElement* padLayoutElement = moduleElement->FirstChildElement( "PadRowLayout2D" );
diff --git a/src/gearxml/TPCParametersXML.cc b/src/gearxml/TPCParametersXML.cc
index 9f02c92..99a33b9 100644
--- a/src/gearxml/TPCParametersXML.cc
+++ b/src/gearxml/TPCParametersXML.cc
@@ -143,6 +143,9 @@ namespace gear {
         // create the modular TPC
         modularTPC = new TPCParametersImpl( maxDriftLength ,coordinateType ) ;
 
+	// the drift velocity is optional in the new syntax
+	modularTPC->setDriftVelocity( atof( getOptionalChildElementValue( xmlElement, "driftVelocity", "0" ).c_str() ) ) ;
+
 	// try to find a default module
 //	const TiXmlElement* defaultModuleElement = xmlElement->FirstChildElement("default");
 //	// no need to check whether the default module was found, the module parser can run without
diff --git a/src/gearxml/tinyxml.cc b/src/gearxml/tinyxml.cc
index 4ae6c22..60ceb26 100644
--- a/src/gearxml/tinyxml.cc
+++ b/src/gearxml/tinyxml.cc
@@ -61,30 +61,9 @@ void TiXmlBase::PutString( const TIXML_STRING& str, TIXML_STRING* outString )
 	{
 		unsigned char c = (unsigned char) str[i];
 
-		if (    c == '&' 
-		     && i < ( (int)str.length() - 2 )
-			 && str[i+1] == '#'
-			 && str[i+2] == 'x' )
-		{
-			// Hexadecimal character reference.
-			// Pass through unchanged.
-			// &#xA9;	-- copyright symbol, for example.
-			//
-			// The -1 is a bug fix from Rob Laveaux. It keeps
-			// an overflow from happening if there is no ';'.
-			// There are actually 2 ways to exit this loop -
-			// while fails (error case) and break (semicolon found).
-			// However, there is no mechanism (currently) for
-			// this function to return an error.
-			while ( i<(int)str.length()-1 )
-			{
-				outString->append( str.c_str() + i, 1 );
-				++i;
-				if ( str[i] == ';' )
-					break;
-			}
-		}
-		else if ( c == '&' )
+		// Note: character references are resolved when a document is read, so every
+		// '&' is a plain character here and has to be encoded.
+		if ( c == '&' )
 		{
 			outString->append( entity[0].str, entity[0].strLength );
 			++i;
-- 
2.43.0


From 0870bd68ffedff1ff13e0819807ccc63c2b5ffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:23 +0000
Subject: [PATCH 16/40] fix: a layer whose addition failed is not half present

---
 src/gearimpl/FTDLayerLayoutImpl.cc  | 23 ++++++++++++++++++-----
 src/gearimpl/SiPlanesLayerLayout.cc |  9 ++++++++-
 src/gearimpl/ZPlanarLayerLayout.cc  |  9 ++++++++-
 3 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/gearimpl/FTDLayerLayoutImpl.cc b/src/gearimpl/FTDLayerLayoutImpl.cc
index 6535cc9..a3e04c0 100644
--- a/src/gearimpl/FTDLayerLayoutImpl.cc
+++ b/src/gearimpl/FTDLayerLayoutImpl.cc
@@ -61,13 +61,26 @@ namespace gear
 	sL.width       = sensitiveWidth ;
 	sL.radLength   = sensitiveRadLength ;
 
-	_lVec.push_back( lL ) ;
-	_sVec.push_back( sL ) ;
-
 	// Get the references frames defining the trapezoid
 	//FIXME: TO BE DEPRECATED
-	_eL = getframe( lL );
-	_eS = getframe( sL );
+	std::vector<vframe> eL = getframe( lL );
+	std::vector<vframe> eS = getframe( sL );
+
+	_lVec.push_back( lL ) ;
+
+	// a layer always has both parts
+	try
+	{
+		_sVec.push_back( sL ) ;
+	}
+	catch( ... )
+	{
+		_lVec.pop_back() ;
+		throw ;
+	}
+
+	_eL.swap( eL );
+	_eS.swap( eS );
 }
 
 
diff --git a/src/gearimpl/SiPlanesLayerLayout.cc b/src/gearimpl/SiPlanesLayerLayout.cc
index 60d1ac0..c961e3f 100644
--- a/src/gearimpl/SiPlanesLayerLayout.cc
+++ b/src/gearimpl/SiPlanesLayerLayout.cc
@@ -117,7 +117,14 @@ namespace gear{
     sL.RadLength   = sensitiveRadLength ;
 
     _lVec.push_back( lL ) ;
-    _sVec.push_back( sL ) ;
+
+    // a layer always has both parts
+    try {
+      _sVec.push_back( sL ) ;
+    } catch( ... ) {
+      _lVec.pop_back() ;
+      throw ;
+    }
 
   }
 
diff --git a/src/gearimpl/ZPlanarLayerLayout.cc b/src/gearimpl/ZPlanarLayerLayout.cc
index 2be0227..f1a0e01 100644
--- a/src/gearimpl/ZPlanarLayerLayout.cc
+++ b/src/gearimpl/ZPlanarLayerLayout.cc
@@ -41,7 +41,14 @@ namespace gear{
     sL.RadLength = sensitiveRadLength ;
 
     _lVec.push_back( lL ) ;
-    _sVec.push_back( sL ) ;
+
+    // a layer always has both parts
+    try {
+      _sVec.push_back( sL ) ;
+    } catch( ... ) {
+      _lVec.pop_back() ;
+      throw ;
+    }
 
   }
 
-- 
2.43.0


From 0b53cb897582c31aef357de1552df628d78fec85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:20 +0000
Subject: [PATCH 17/40] fix: memory exhaustion while copying or writing XML
 elements is reported

String streams swallowed the exception and lost values, the destructor of an
incompletely copied element aborted and materials used uninitialised numbers.
---
 src/gearxml/GearParametersXML.cc |  3 +++
 src/gearxml/SimpleMaterialXML.cc | 24 ++++++------------------
 src/gearxml/tinyxml.cc           | 11 ++++++++++-
 3 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/gearxml/GearParametersXML.cc b/src/gearxml/GearParametersXML.cc
index 732c437..d278452 100644
--- a/src/gearxml/GearParametersXML.cc
+++ b/src/gearxml/GearParametersXML.cc
@@ -153,6 +153,7 @@ namespace gear {
 
       IntVec vec = gearParams->getIntVals( intVecKeys[i]  ) ;
       std::stringstream str ;
+      str.exceptions( std::ios::badbit ) ; // don't lose values silently
       for(unsigned int j=0 ; j < vec.size() ; ++j ){
 	if( j!=0 ) 
 	  str << " " ; 
@@ -176,6 +177,7 @@ namespace gear {
       DoubleVec vec = gearParams->getDoubleVals( doubleVecKeys[i]  ) ;
 
       std::stringstream str ;
+      str.exceptions( std::ios::badbit ) ; // don't lose values silently
       // maintain the same level of precision as for single double values
       str << std::scientific << std::setprecision(9) ;
       for(unsigned int j=0 ; j < vec.size() ; ++j ){
@@ -200,6 +202,7 @@ namespace gear {
 
       StringVec vec = gearParams->getStringVals( stringVecKeys[i]  ) ;
       std::stringstream str ;
+      str.exceptions( std::ios::badbit ) ; // don't lose values silently
       for(unsigned int j=0 ; j < vec.size() ; ++j ){
 	if( j!=0 ) 
 	  str << " " ; 
diff --git a/src/gearxml/SimpleMaterialXML.cc b/src/gearxml/SimpleMaterialXML.cc
index 6cb75e6..3346a8b 100644
--- a/src/gearxml/SimpleMaterialXML.cc
+++ b/src/gearxml/SimpleMaterialXML.cc
@@ -7,7 +7,7 @@
 #include "gearxml/XMLHandler.h"
 
 #include <string>
-#include <sstream>
+#include <cstdlib>
 
 namespace gear {
   
@@ -38,23 +38,11 @@ namespace gear {
 
     //std::cout << "  SimpleMaterialXML::fromXML( " << name << " ... ) " << std::endl ;
 
-    std::stringstream ss ; 
-    double dummy ;
-
-    ss << getXMLAttribute( xmlElement , "A" ) ;  ss >> dummy ; ss.clear() ;
-    double A = dummy ;
-
-    ss << getXMLAttribute( xmlElement , "Z" ) ;  ss >> dummy ; ss.clear() ;
-    double Z = dummy ;
-
-    ss << getXMLAttribute( xmlElement , "density" ) ;  ss >> dummy ; ss.clear() ;
-    double d = dummy ;
-
-    ss << getXMLAttribute( xmlElement , "radLength" ) ;  ss >> dummy ; ss.clear() ;
-    double rL = dummy ;
-
-    ss << getXMLAttribute( xmlElement , "intLength" ) ;  ss >> dummy ; ss.clear() ;
-    double iL = dummy ;
+    double A  = atof( getXMLAttribute( xmlElement , "A" ).c_str() ) ;
+    double Z  = atof( getXMLAttribute( xmlElement , "Z" ).c_str() ) ;
+    double d  = atof( getXMLAttribute( xmlElement , "density" ).c_str() ) ;
+    double rL = atof( getXMLAttribute( xmlElement , "radLength" ).c_str() ) ;
+    double iL = atof( getXMLAttribute( xmlElement , "intLength" ).c_str() ) ;
 
     SimpleMaterialImpl* sm = new SimpleMaterialImpl( name , A , Z , d , rL , iL  ) ;
 
diff --git a/src/gearxml/tinyxml.cc b/src/gearxml/tinyxml.cc
index 60ceb26..7c8288d 100644
--- a/src/gearxml/tinyxml.cc
+++ b/src/gearxml/tinyxml.cc
@@ -617,7 +617,16 @@ TiXmlElement::TiXmlElement( const TiXmlElement& copy)
 	: TiXmlNode( TiXmlNode::ELEMENT )
 {
 	firstChild = lastChild = 0;
-	copy.CopyTo( this );	
+	try
+	{
+		copy.CopyTo( this );
+	}
+	catch( ... )
+	{
+		// the destructor is not called for an incomplete copy
+		ClearThis();
+		throw;
+	}
 }
 
 
-- 
2.43.0


From f10ccfc4af23a9300df3b2f253ef190126526a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:47 +0000
Subject: [PATCH 18/40] fix: merging does not change its inputs, keeps all
 sections and does not follow null pointers

Each merge exchanged the two files when file 1 is dominant, sections and
attributes only present in the other file were lost, elements without children
or files without global or materials sections crashed.
---
 include/gear/gearxml/MergeXML.h |  32 ++++-----
 src/gearxml/MergeXML.cc         | 111 ++++++++++++++++++--------------
 2 files changed, 72 insertions(+), 71 deletions(-)

diff --git a/include/gear/gearxml/MergeXML.h b/include/gear/gearxml/MergeXML.h
index ec01d9d..3bcd2ba 100644
--- a/include/gear/gearxml/MergeXML.h
+++ b/include/gear/gearxml/MergeXML.h
@@ -1,6 +1,7 @@
 #ifndef GEAR_MergeXML_H
 #define GEAR_MergeXML_H
 
+#include <memory>
 #include <string>
 #include "gearxml/tinyxml.h"
 
@@ -47,10 +48,8 @@ namespace gear {
     /**constructor
      */
     MergeXML() : 
-      _file1(NULL),
-      _file2(NULL),
-      _fileSwap(NULL),
-      _fileMerged(NULL),
+      _file1(),
+      _file2(),
       _domFile(2),
       _name(NAME_STR) {
     }
@@ -61,41 +60,32 @@ namespace gear {
     //checks whether file can be read in
     bool checkXML( const std::string& fileName ) ;
 
-    //get files correct: dominant will be _file2 and recessiv will be _file1
-    void correctDominantFile() ;
-
     //compare nodes
-    void mergeNode( TiXmlNode* node, TiXmlNode* domNode ) ;
+    void mergeNode( const TiXmlNode* node, TiXmlNode* domNode ) ;
 
     // merge childsNodes where domNode overrules Node
     void mergeElement( TiXmlNode* node, TiXmlNode* domNode ) ;
 
     // merge childElements where domNode overrules Node
-    void mergeAttribute( TiXmlElement* element, TiXmlElement* domElement ) ;
+    void mergeAttribute( const TiXmlElement* element, TiXmlElement* domElement ) ;
 
     // count the number of nodes that look like childNode in parentNode
-    int countNodes( TiXmlNode* childNode, TiXmlNode* domNode ) ;
+    int countNodes( const TiXmlNode* childNode, const TiXmlNode* domNode ) ;
 
     // get chilElement with same Attribute name
-    TiXmlNode* getChildNode( TiXmlNode* node, TiXmlNode* domNode, int getOccurence = 1 ) ;
+    TiXmlNode* getChildNode( const TiXmlNode* node, TiXmlNode* domNode, int getOccurence = 1 ) ;
 
     // get the Name of the Node - either as value of the attribute name or as node->Value() 
-    std::string getNodeName( TiXmlNode* node ) ;
+    std::string getNodeName( const TiXmlNode* node ) ;
 
     // check if the Node has the required attribute
-    bool hasAttribute( TiXmlNode* node ) ;
+    bool hasAttribute( const TiXmlNode* node ) ;
 
     //file1
-    TiXmlDocument* _file1 ;
+    std::shared_ptr<TiXmlDocument> _file1 ;
 
     //file2
-    TiXmlDocument* _file2 ;
-
-    //fileSwap - if dominant changes
-    TiXmlDocument* _fileSwap ;
-
-    //fileMerged - final document
-    TiXmlDocument* _fileMerged ;
+    std::shared_ptr<TiXmlDocument> _file2 ;
 
     //dominant file - default file2
     int _domFile ;
diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index f25b50a..f823779 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -1,6 +1,8 @@
 #include "gear/GEAR.h"
 #include "gearxml/MergeXML.h"
 
+#include <iostream>
+#include <memory>
 #include <sstream>
 
 namespace gear{
@@ -8,28 +10,29 @@ namespace gear{
 
   bool MergeXML::setFile1( const std::string& fileName ) {
 
-    _file1 = new TiXmlDocument( fileName ) ;
-    
-    return _file1->LoadFile( fileName ) ;
+    // only keep documents that have been read completely
+    std::shared_ptr<TiXmlDocument> file( new TiXmlDocument( fileName ) ) ;
+
+    if( ! file->LoadFile( fileName ) )
+      return false ;
+
+    _file1 = file ;
+
+    return true ;
   }
 
 
   bool MergeXML::setFile2( const std::string& fileName ) {
     
-    _file2 = new TiXmlDocument( fileName ) ;
-    
-    return _file2->LoadFile( fileName ) ;
-  }
+    // only keep documents that have been read completely
+    std::shared_ptr<TiXmlDocument> file( new TiXmlDocument( fileName ) ) ;
 
+    if( ! file->LoadFile( fileName ) )
+      return false ;
 
-  void MergeXML::correctDominantFile() {
-    
-    if ( _domFile == 1 ) {
-      _fileSwap = new TiXmlDocument ;
-      *_fileSwap = *_file1 ;
-      *_file1 = *_file2 ;
-      *_file2 = *_fileSwap ;
-    }
+    _file2 = file ;
+
+    return true ;
   }
 
 
@@ -40,21 +43,28 @@ namespace gear{
 
     // variables
     const std::string gear = "gear" ;
-    const std::string global = "global" ;
     const std::string detectors = "detectors" ;
-    const std::string materials = "materials" ;
 
-    // correct the files for dominancy
-    correctDominantFile() ;
+    if( ! _file1 || ! _file2 ) {
+
+      std::cout << "Two files are needed.\nAborted." <<std::endl ;
+      return false;
+    }
+
+    // the files themselves are not changed, so they can be merged again
+    const TiXmlDocument& file    = ( _domFile == 1 ) ? *_file2 : *_file1 ;
+    const TiXmlDocument& domFile = ( _domFile == 1 ) ? *_file1 : *_file2 ;
 
     // copy all dominant information in final file
-    _fileMerged = new TiXmlDocument( fileName ) ;
-    *_fileMerged = *_file2 ;
+    TiXmlDocument fileMerged( domFile ) ;
     
     // check if files are geartype
-    if ( not ( _file1->FirstChild( gear ) && _fileMerged->FirstChild( gear )
-	       && (_file1->FirstChild( gear ))->FirstChild( detectors ) 
-	       && (_fileMerged->FirstChild( gear ))->FirstChild( detectors )
+    const TiXmlNode* nodeGear = file.FirstChild( gear ) ;
+    TiXmlNode* nodeGearMerged = fileMerged.FirstChild( gear ) ;
+
+    if ( not ( nodeGear && nodeGearMerged
+	       && nodeGear->FirstChild( detectors ) 
+	       && nodeGearMerged->FirstChild( detectors )
 	       )) {
       
       // give out information and quit
@@ -62,29 +72,30 @@ namespace gear{
       return false;
     }
 
-    // go to specified nodes
-    TiXmlNode* nodeGear1      = _file1->FirstChild( gear ) ;
-    TiXmlNode* nodeGlobal1    = nodeGear1->FirstChild( global ) ;
-    TiXmlNode* nodeDetectors1 = nodeGear1->FirstChild( detectors ) ;
-    TiXmlNode* nodeMaterials1 = nodeGear1->FirstChild( materials ) ;
-    
-    TiXmlNode* nodeGearMerged = _fileMerged->FirstChild( gear ) ;
-    TiXmlNode* nodeGlobalMerged    = nodeGearMerged->FirstChild( global ) ;
-    TiXmlNode* nodeDetectorsMerged = nodeGearMerged->FirstChild( detectors ) ;
-    TiXmlNode* nodeMaterialsMerged = nodeGearMerged->FirstChild( materials ) ;
-    
-    // loop through all nodes
-    mergeNode( nodeGlobal1, nodeGlobalMerged ) ;
-    mergeNode( nodeDetectors1, nodeDetectorsMerged ) ;
-    mergeNode( nodeMaterials1, nodeMaterialsMerged ) ;
+    // loop through all sections (global, BField, detectors, materials, ...)
+    for( const TiXmlElement* section = nodeGear->FirstChildElement() ;
+	 section != NULL ; section = section->NextSiblingElement() ) {
+
+      TiXmlElement* domSection = nodeGearMerged->FirstChildElement( section->Value() ) ;
+
+      if( domSection == NULL ) {
+
+	nodeGearMerged->InsertEndChild( *section ) ;
+      }
+      else {
+
+	mergeAttribute( section, domSection ) ;
+	mergeNode( section, domSection ) ;
+      }
+    }
     
     // save file
-    return _fileMerged->SaveFile( fileName ) ;
+    return fileMerged.SaveFile( fileName ) ;
   }
 
 
   // compare nodes
-  void MergeXML::mergeNode( TiXmlNode* node, TiXmlNode* domNode ) {
+  void MergeXML::mergeNode( const TiXmlNode* node, TiXmlNode* domNode ) {
 
     // during the loop count occurences of same Name
     int occurence = 0 ;
@@ -105,7 +116,7 @@ namespace gear{
     }
 
     // loop through all child nodes
-    TiXmlNode* loopNode = 0 ;
+    const TiXmlNode* loopNode = 0 ;
     while (( loopNode = ( node->IterateChildren( loopNode ) )))
       {
 	// debug information
@@ -162,7 +173,7 @@ namespace gear{
 	  }
  
 	  // start mergeNode for subordniate nodes
-	  if ( hasAttribute(loopNode) && !((loopNode->FirstChild())->ToText()) ) {
+	  if ( hasAttribute(loopNode) && loopNode->FirstChild() && !((loopNode->FirstChild())->ToText()) ) {
 	    mergeNode( loopNode, domChildNode ) ;
 	  }
 	    //else {
@@ -178,7 +189,7 @@ namespace gear{
 
 
   // returns name for Node
-  std::string MergeXML::getNodeName( TiXmlNode* node ) {
+  std::string MergeXML::getNodeName( const TiXmlNode* node ) {
 
     // if name has to be taken than get name - otherwise take value of node  
     std::string strName ;
@@ -195,14 +206,14 @@ namespace gear{
 
 
   // check if node has attribute name
-  bool MergeXML::hasAttribute( TiXmlNode* node ) {
+  bool MergeXML::hasAttribute( const TiXmlNode* node ) {
     
     return ( (node->ToElement()) && ((node->ToElement())->Attribute(_name)) ) ;
   }
 
 
   // counts how often nodes appear
-  int MergeXML::countNodes( TiXmlNode* childNode, TiXmlNode* parentNode ) {
+  int MergeXML::countNodes( const TiXmlNode* childNode, const TiXmlNode* parentNode ) {
 
     // counter for appearances
     int counter = 0 ;
@@ -211,7 +222,7 @@ namespace gear{
     std::string strName = getNodeName( childNode ) ;
 
     // loop through all nodes and count
-    TiXmlNode* loopNode = parentNode->FirstChild() ;
+    const TiXmlNode* loopNode = parentNode->FirstChild() ;
     while ( loopNode ) {
       
       // debug information
@@ -234,7 +245,7 @@ namespace gear{
  
 
   // get ChildElement
-  TiXmlNode* MergeXML::getChildNode( TiXmlNode* node, TiXmlNode* domNode, int getOccurence ) {
+  TiXmlNode* MergeXML::getChildNode( const TiXmlNode* node, TiXmlNode* domNode, int getOccurence ) {
 
     // debug information
     //std::cout << "   getChildElement called for " << node->Value() << std::endl ;
@@ -285,10 +296,10 @@ namespace gear{
     
 
   // compare Attributes
-  void MergeXML::mergeAttribute( TiXmlElement* element, TiXmlElement* domElement ) {
+  void MergeXML::mergeAttribute( const TiXmlElement* element, TiXmlElement* domElement ) {
 
     // loop through all attributs of given node
-    TiXmlAttribute* loopAttribute = element->FirstAttribute() ;
+    const TiXmlAttribute* loopAttribute = element->FirstAttribute() ;
     while ( loopAttribute ) 
       {
 	// which Attribut
-- 
2.43.0


From a5aca0915485d38157a68f86f15d7cf0d1796583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:17 +0000
Subject: [PATCH 19/40] fix: a failed MeasurementSurfaceStore::FillStore leaves
 the store empty

---
 src/gearsurf/MeasurementSurfaceStore.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/gearsurf/MeasurementSurfaceStore.cc b/src/gearsurf/MeasurementSurfaceStore.cc
index 691c128..eb6cf82 100644
--- a/src/gearsurf/MeasurementSurfaceStore.cc
+++ b/src/gearsurf/MeasurementSurfaceStore.cc
@@ -105,16 +105,24 @@ namespace gear{
     }
     else {
       
-      _fillerName = filler->getName(); 
+      std::string fillerName = filler->getName(); 
       std::vector<MeasurementSurface*> surface_list;
       filler->getMeasurementSurfaces(surface_list);
       
       std::vector<MeasurementSurface*>::iterator it;
       
-      for (it = surface_list.begin(); it!=surface_list.end(); ++it) {
-        this->addMeasurementSurface(*it);
+      try {
+        for (it = surface_list.begin(); it!=surface_list.end(); ++it) {
+          this->addMeasurementSurface(*it);
+        }
+      }
+      catch(...) {
+        // a failed fill leaves the store empty, so that it can be filled later
+        _measurement_surface_map.clear();
+        throw;
       }
       
+      _fillerName.swap( fillerName );
       _store_filled = true;
       
     }    
-- 
2.43.0


From be95bb957c03e34c7a126e36b4ef2be17a6995ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:37 +0000
Subject: [PATCH 20/40] fix: RectangularPadRowLayout::getNearestPad always ends
 and stays within its rows

A point in the gap outside the pads of the first or last row read a row that
does not exist, and a point on the border of two rows could, by rounding, be
outside both of them, in which case the search went back and forth forever.
---
 src/gearimpl/RectangularPadRowLayout.cc | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index c431375..95bded7 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -409,6 +409,10 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 	// make a best guess at the starting row by assuming all rows are the same height
     int row_number = (int)( round( (_rows.size() - 1) * (y - _extent[2]) / (_extent[3] - _extent[2]) ) );
 
+    // the rows that can still be the nearest one
+    int first_row = 0 ;
+    int last_row = (int) _rows.size() - 1 ;
+
     // do a binary search for the nearest row
 	while( true ) {
 
@@ -426,6 +430,11 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 			
 			// check the next row of pads, it could be closer to them then this row
 			const int next_row_number = (y_displacement < 0)? row_number - 1: row_number + 1;
+
+			// beyond the pads of the outermost rows there is no next row
+			if( next_row_number < 0 || next_row_number >= (int) _rows.size() )
+				break;
+
 			const Row &next_row = _rows[next_row_number];
 
 			const double y_distance_from_pads = fabs(y_displacement) - (row.PadHeight/2);
@@ -465,7 +474,20 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 			  break;
 			}
 
+			// rounding errors can put the border between two rows outside both of them:
+			// never go back to a row that has been excluded, otherwise the search would not end
+			if( y_displacement < 0 )
+				last_row = row_number - 1;
+			else
+				first_row = row_number + 1;
+
+			if( first_row > last_row )
+				break;
+
 			row_number += delta_row;
+
+			if( row_number < first_row ) row_number = first_row;
+			if( row_number > last_row  ) row_number = last_row;
 		}
 		
 		/*std::cout << "Hit Enter to continue... \n";
-- 
2.43.0


From c7a7fb671de71c5c14f02ef382a73700e0fc3837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:50 +0000
Subject: [PATCH 21/40] fix: repeated rows of rectangular pad layouts are saved
 as they were defined

The writer took the number of row definitions from the number of groups of equal
rows, which repeatRows() does not keep: rows defined with a count were read back
as additional rows.
---
 src/gearxml/RectangularPadRowLayoutXML.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gearxml/RectangularPadRowLayoutXML.cc b/src/gearxml/RectangularPadRowLayoutXML.cc
index 470f8a6..037f7de 100644
--- a/src/gearxml/RectangularPadRowLayoutXML.cc
+++ b/src/gearxml/RectangularPadRowLayoutXML.cc
@@ -38,14 +38,15 @@ namespace gear {
     const std::vector<unsigned>& rowNumbers = rectangularPadLayout->equalRowNumbers() ;
     int theRow = 0 ;
 
-    int rowNum  = rowNumbers.size() ; 
+    // only the rows of the pattern are written - the repeated ones follow from repeatRows
+    int rowNum  = rectangularPadLayout->rows().size() ; 
     
     if( repeatRowCount > 1  ) 
       rowNum /=  repeatRowCount ;
 
     
     
-    for(int i=0 ; i< rowNum ; ++i){
+    for(int i=0 ; theRow < rowNum ; ++i){
       
       TiXmlElement rowElement("row");    
       
-- 
2.43.0


From 044f80440be4a502066009eabc641f90cf342e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:49 +0000
Subject: [PATCH 22/40] fix: a new TPC module reports its extents in the
 coordinates of the TPC

They were in local coordinates until any of the setters was called, so a module in
default position had other extents than the same module read from a file.
---
 src/gearimpl/TPCModuleImpl.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index e4b1f69..e44061d 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -1184,7 +1184,7 @@ namespace gear {
 	  _moduleExtent.resize(4);
 	  _localModuleExtent.resize(4);
 
-	  // as no offsets, angle and border are applied, all extents are identical
+	  // no offsets, angle and border are applied
 	  _planeExtent=_padRowLayout->getPlaneExtent();
 	  _moduleExtent = _planeExtent; 
 	  _localModuleExtent = _moduleExtent;
@@ -1204,6 +1204,12 @@ namespace gear {
 	  _zPositionIsSet = false;
 
 	  checkLocalIsGlobal();
+
+	  // The extents have to be the ones in the coordinates of the TPC from the beginning
+	  // (there is no calculation for cartesian pads in polar coordinates).
+	  if ( !( _momsCoordinateType == PadRowLayout2D::POLAR &&
+		  _padRowLayout->getCoordinateType() == PadRowLayout2D::CARTESIAN ) )
+	      convertLocalPlaneToGlobalPlaneExtend();
     }
 
     TPCModuleImpl::TPCModuleImpl(const TPCModuleImpl &right)
-- 
2.43.0


From 5d5fc68aae4dba627eda998467ff40c30a3564ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:20 +0000
Subject: [PATCH 23/40] fix: merging keeps a dominant parameter value that is
 given as element contents

---
 src/gearxml/MergeXML.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index f823779..b9cde70 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -311,7 +311,10 @@ namespace gear{
 	// get same attribute in dominant element
 	const char* domAttribute = domElement->Attribute( attName ) ;
 
-	if( domAttribute == NULL ) {
+	// a value that is given as contents of the dominant element stays the value
+	const bool valueInContents = ( attName == "value" ) && domElement->FirstChild() && domElement->FirstChild()->ToText() ;
+
+	if( domAttribute == NULL && ! valueInContents ) {
 
 	  // add to domElement 
 	  domElement->SetAttribute( attName, loopAttribute->Value() ) ;
-- 
2.43.0


From 4dcf9cea6c5529d02865133b339ef1271dac0202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:01 +0000
Subject: [PATCH 24/40] fix: elements that are missing in a description are
 reported, not dereferenced

---
 include/gear/gearxml/XMLHandler.h         |  6 ++++++
 src/gearxml/FTDParametersXML.cc           |  2 +-
 src/gearxml/SiPlanesParametersXML.cc      |  6 +++---
 src/gearxml/TrackerPlanesParametersXML.cc |  6 +++---
 src/gearxml/XMLHandlerMgr.cc              | 16 ++++++++++++++++
 src/gearxml/ZPlanarParametersXML.cc       |  2 +-
 6 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/include/gear/gearxml/XMLHandler.h b/include/gear/gearxml/XMLHandler.h
index 20c83cd..0a0d5c6 100644
--- a/include/gear/gearxml/XMLHandler.h
+++ b/include/gear/gearxml/XMLHandler.h
@@ -43,6 +43,12 @@ namespace gear {
   std::string getOptionalXMLAttribute(const  TiXmlNode* node , const std::string& name , 
 				      const std::string& defaultValue) ;    
 
+  /** Helper method used for parsing XML - returns the first child element with the given name (previous==0)
+   *  or the next one after previous, 0 if there is none. Throws if there is no parent node.
+   */
+  const TiXmlElement* nextChildElement(const TiXmlNode* node , const std::string& name , 
+				       const TiXmlNode* previous=0 ) ;
+
   /** Helper method used for parsing XML - returns the attribute 'value' of the named child element as double 
    */
   std::string getChildElementValue(const TiXmlNode* node , const std::string& name ) ;
diff --git a/src/gearxml/FTDParametersXML.cc b/src/gearxml/FTDParametersXML.cc
index 9d4efcc..4453f57 100644
--- a/src/gearxml/FTDParametersXML.cc
+++ b/src/gearxml/FTDParametersXML.cc
@@ -106,7 +106,7 @@ namespace gear
 		const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
 		const TiXmlNode* xmlLayer = 0 ;
 		
-		while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) 
+		while( ( xmlLayer = nextChildElement( xmlLayers , "layer" , xmlLayer ) ) != 0 ) 
 		{
 			int nPetals    = atoi( getXMLAttribute( xmlLayer , "nPetals" ).c_str() );
                         int nSensors   = atoi( getXMLAttribute( xmlLayer , "nSensors" ).c_str() );
diff --git a/src/gearxml/SiPlanesParametersXML.cc b/src/gearxml/SiPlanesParametersXML.cc
index f8ebbd5..ae50422 100644
--- a/src/gearxml/SiPlanesParametersXML.cc
+++ b/src/gearxml/SiPlanesParametersXML.cc
@@ -207,8 +207,8 @@ namespace gear {
 
     if (intType == SiPlanesParameters::TelescopeWithDUT) {
       const TiXmlNode* xmlDUT = xmlElement->FirstChildElement( "dut" ) ;
-      const TiXmlNode* xmlDUTLad = xmlDUT->FirstChildElement( "dut_ladder" ) ;
-      const TiXmlNode* xmlDUTSen = xmlDUT->FirstChildElement( "dut_sensitive" ) ;
+      const TiXmlNode* xmlDUTLad = nextChildElement( xmlDUT , "dut_ladder" ) ;
+      const TiXmlNode* xmlDUTSen = nextChildElement( xmlDUT , "dut_sensitive" ) ;
       
       int ldutID = atoi(getXMLAttribute( xmlDUTLad , "ID" ).c_str() );
       double ldutPosX   = atof(getXMLAttribute( xmlDUTLad , "positionX" ).c_str() ) ;
@@ -244,7 +244,7 @@ namespace gear {
     const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
 
     const TiXmlNode* xmlLayer = 0 ;
-    while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
+    while( ( xmlLayer = nextChildElement( xmlLayers , "layer" , xmlLayer ) ) != 0 ) {
 
     const TiXmlNode* xmlLad = xmlLayer->FirstChildElement( "ladder" ) ;
     const TiXmlNode* xmlSen = xmlLayer->FirstChildElement( "sensitive" ) ;
diff --git a/src/gearxml/TrackerPlanesParametersXML.cc b/src/gearxml/TrackerPlanesParametersXML.cc
index e48d5b8..b001f43 100644
--- a/src/gearxml/TrackerPlanesParametersXML.cc
+++ b/src/gearxml/TrackerPlanesParametersXML.cc
@@ -154,7 +154,7 @@ namespace gear {
     const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
 
     const TiXmlNode* xmlLayer = 0 ;
-    while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
+    while( ( xmlLayer = nextChildElement( xmlLayers , "layer" , xmlLayer ) ) != 0 ) {
 
             TrackerPlanesLayerImpl* layerImpl = new TrackerPlanesLayerImpl() ;
 
@@ -167,7 +167,7 @@ namespace gear {
             layerImpl->setInfo( infoLayer ) ; 
 
             const TiXmlNode* xmlLad = 0 ;
-            while( ( xmlLad = xmlLayer->IterateChildren( "ladder" , xmlLad ) ) != 0 ) {
+            while( ( xmlLad = nextChildElement( xmlLayer , "ladder" , xmlLad ) ) != 0 ) {
 
 		    int lID        = atoi( getXMLAttribute( xmlLad , "ID" ).c_str() ) ;
 		    std::string lInfo = getOptionalXMLAttribute( xmlLad, "info", "" ).c_str()  ;
@@ -188,7 +188,7 @@ namespace gear {
 	    }
 
             const TiXmlNode* xmlSen = 0 ;
-            while( ( xmlSen = xmlLayer->IterateChildren( "sensitive" , xmlSen ) ) != 0 ) {
+            while( ( xmlSen = nextChildElement( xmlLayer , "sensitive" , xmlSen ) ) != 0 ) {
 
 		    int sID        = atoi( getXMLAttribute( xmlSen , "ID" ).c_str() ) ;
 		    std::string sInfo = getOptionalXMLAttribute( xmlSen, "info", "" ).c_str()  ;
diff --git a/src/gearxml/XMLHandlerMgr.cc b/src/gearxml/XMLHandlerMgr.cc
index 6560c07..6ab8530 100644
--- a/src/gearxml/XMLHandlerMgr.cc
+++ b/src/gearxml/XMLHandlerMgr.cc
@@ -90,6 +90,10 @@ namespace gear{
 
   std::string getXMLAttribute(const TiXmlNode* node , const std::string& name ) {
     
+    if( node == 0 ) {
+      throw ParseException( "XMLParser::getAttribute missing element with attribute \"" + name + "\"" ) ;
+    }
+
     const TiXmlElement* el = node->ToElement() ;
     if( el == 0 ) {
        std::stringstream str ;
@@ -127,6 +131,18 @@ namespace gear{
 
 
 
+  // helper function (declared in XMLHandler.h )
+
+  const TiXmlElement* nextChildElement(const TiXmlNode* node , const std::string& name , 
+				       const TiXmlNode* previous ) {
+
+    if( node == 0 ) {
+      throw ParseException( "XMLParser::nextChildElement missing element around <" + name + "/>" ) ;
+    }
+
+    return previous ? previous->NextSiblingElement( name ) : node->FirstChildElement( name ) ;
+  }
+
   // helper function (declared in XMLHandler.h )
 
   std::string getChildElementValue(const TiXmlNode* node , const std::string& name ) {
diff --git a/src/gearxml/ZPlanarParametersXML.cc b/src/gearxml/ZPlanarParametersXML.cc
index 3f0d660..1526d37 100644
--- a/src/gearxml/ZPlanarParametersXML.cc
+++ b/src/gearxml/ZPlanarParametersXML.cc
@@ -169,7 +169,7 @@ namespace gear {
     const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
     const TiXmlNode* xmlLayer = 0 ;
     
-    while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
+    while( ( xmlLayer = nextChildElement( xmlLayers , "layer" , xmlLayer ) ) != 0 ) {
       
       int nLadders = atoi( getXMLAttribute( xmlLayer , "nLadders" ).c_str() ) ;
       double phi0  = atof( getXMLAttribute( xmlLayer , "phi0"     ).c_str() ) ;
-- 
2.43.0


From e0f09df216fdbcafed4138305ace423328042756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:01 +0000
Subject: [PATCH 25/40] fix: comments in a description are not taken for
 elements or parameter values

---
 src/gearxml/CalorimeterParametersXML.cc   |  2 +-
 src/gearxml/GearParametersXML.cc          | 11 ++++++++---
 src/gearxml/GearXML.cc                    | 18 +++++++++---------
 src/gearxml/RectangularPadRowLayoutXML.cc |  2 +-
 src/gearxml/TPCParametersXML.cc           |  3 +--
 src/gearxml/VersatileDiskRowLayoutXML.cc  |  2 +-
 6 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/gearxml/CalorimeterParametersXML.cc b/src/gearxml/CalorimeterParametersXML.cc
index 2fea88c..76f5c53 100644
--- a/src/gearxml/CalorimeterParametersXML.cc
+++ b/src/gearxml/CalorimeterParametersXML.cc
@@ -231,7 +231,7 @@ namespace gear {
     int layerId = 0 ;
 
     const TiXmlNode* layer = 0 ;
-    while( ( layer = xmlElement->IterateChildren( "layer", layer ) )  != 0  ){
+    while( ( layer = nextChildElement( xmlElement , "layer" , layer ) )  != 0  ){
 
       int    nLayer            = atoi(  getXMLAttribute( layer , "repeat" ) .c_str() ) ;
       double thickness         = atof(  getXMLAttribute( layer , "thickness" ) .c_str() ) ;
diff --git a/src/gearxml/GearParametersXML.cc b/src/gearxml/GearParametersXML.cc
index d278452..9a122bf 100644
--- a/src/gearxml/GearParametersXML.cc
+++ b/src/gearxml/GearParametersXML.cc
@@ -221,7 +221,7 @@ namespace gear {
 
 
     const TiXmlNode* par = 0 ;
-    while( ( par = xmlElement->IterateChildren( "parameter", par ) )  != 0  ){
+    while( ( par = nextChildElement( xmlElement , "parameter" , par ) )  != 0  ){
       
       
       
@@ -235,8 +235,13 @@ namespace gear {
       }      
       catch( ParseException const& ) {
 	
-	if( par->FirstChild() )
-	  value =  par->FirstChild()->Value() ;
+	// the first text, there might be comments in front of it
+	const TiXmlNode* contents = par->FirstChild() ;
+	while( contents && ! contents->ToText() )
+	  contents = contents->NextSibling() ;
+
+	if( contents )
+	  value =  contents->Value() ;
       }
       
       
diff --git a/src/gearxml/GearXML.cc b/src/gearxml/GearXML.cc
index 856cb78..136f6d7 100644
--- a/src/gearxml/GearXML.cc
+++ b/src/gearxml/GearXML.cc
@@ -515,27 +515,27 @@ namespace gear{
     }
     
 
-    TiXmlNode* global =  root->FirstChild("global") ;
+    TiXmlNode* global =  root->FirstChildElement("global") ;
     if( global != 0 ){
       std::string detName  =  getXMLAttribute( global, "detectorName" )  ;
       gearMgr->setDetectorName( detName  ) ;
     }    
     
-    TiXmlNode* detectors = root->FirstChild("detectors")  ;
+    TiXmlNode* detectors = root->FirstChildElement("detectors")  ;
     if( detectors == 0 ){
       throw ParseException( std::string( "GearXML::createGearMgr : no detectors tag found in  ") 
 			   + _fileName  ) ;
     }
     
 //     // --- the BField ------------
-    TiXmlNode* field = root->FirstChild("BField")  ;
+    TiXmlNode* field = root->FirstChildElement("BField")  ;
     if( field != 0 ){
       ConstantBFieldXML handler ;
       handler.fromXML( field->ToElement() , gearMgr.get() ) ; 
     }
 
 //-----GDML File ---------------
-    TiXmlNode* gdmlfile = root->FirstChild("GDMLFile")  ;
+    TiXmlNode* gdmlfile = root->FirstChildElement("GDMLFile")  ;
     
     if( gdmlfile != 0 ){
       
@@ -580,8 +580,8 @@ namespace gear{
 
 
 
-    TiXmlNode* det = 0 ;
-    while( ( det = detectors->IterateChildren( "detector", det ) )  != 0  ){
+    const TiXmlNode* det = 0 ;
+    while( ( det = nextChildElement( detectors , "detector" , det ) )  != 0  ){
       
       std::string name  =  getXMLAttribute( det, "name" )  ;
 
@@ -625,14 +625,14 @@ namespace gear{
     
     //----------------------
 
-    TiXmlNode* materials = root->FirstChild("materials")  ;
+    TiXmlNode* materials = root->FirstChildElement("materials")  ;
     
     if( materials != 0 ){
       
       SimpleMaterialXML handler ;
 
-      TiXmlNode* mat = 0 ;
-      while( ( mat = materials->IterateChildren( "material", mat ) )  != 0  ){
+      const TiXmlNode* mat = 0 ;
+      while( ( mat = nextChildElement( materials , "material" , mat ) )  != 0  ){
 
 	handler.fromXML( mat->ToElement() , gearMgr.get() ) ; 
       }
diff --git a/src/gearxml/RectangularPadRowLayoutXML.cc b/src/gearxml/RectangularPadRowLayoutXML.cc
index 037f7de..55a7314 100644
--- a/src/gearxml/RectangularPadRowLayoutXML.cc
+++ b/src/gearxml/RectangularPadRowLayoutXML.cc
@@ -87,7 +87,7 @@ namespace gear {
 
     // ----- rows ------------
     const TiXmlNode* row = 0 ;
-    while( ( row = xmlElement->IterateChildren( "row", row ) )  != 0  ){
+    while( ( row = nextChildElement( xmlElement , "row" , row ) )  != 0  ){
 
       int    nRow             = atoi(  getOptionalXMLAttribute( row , "repeat" , "1" ) .c_str() ) ;
 
diff --git a/src/gearxml/TPCParametersXML.cc b/src/gearxml/TPCParametersXML.cc
index 99a33b9..31038d3 100644
--- a/src/gearxml/TPCParametersXML.cc
+++ b/src/gearxml/TPCParametersXML.cc
@@ -153,8 +153,7 @@ namespace gear {
 	
 	// loop the modules section (there might be mor than one)
 	const TiXmlElement* modulesElement=0;
-	while( ( modulesElement =dynamic_cast<const TiXmlElement*>(
-		     xmlElement->IterateChildren( "modules", modulesElement ) )  )  != 0  )
+	while( ( modulesElement = nextChildElement( xmlElement , "modules", modulesElement ) )  != 0  )
 	{
 	    //std::cout << "GEARDEBUG: " << "TPCParametersXML::fromXML : found modules section" << std::endl;
 	    
diff --git a/src/gearxml/VersatileDiskRowLayoutXML.cc b/src/gearxml/VersatileDiskRowLayoutXML.cc
index 7cb80cf..5e9ae78 100644
--- a/src/gearxml/VersatileDiskRowLayoutXML.cc
+++ b/src/gearxml/VersatileDiskRowLayoutXML.cc
@@ -59,7 +59,7 @@ namespace gear {
       VersatileDiskRowLayout * padLayout = new VersatileDiskRowLayout( rMin );
 
       const TiXmlNode* xmlRow = 0 ;
-      while( ( xmlRow = xmlLayout->IterateChildren( "row", xmlRow ) )  != 0  ){
+      while( ( xmlRow = nextChildElement( xmlLayout , "row" , xmlRow ) )  != 0  ){
 
 	  int    nPad      =  atoi(  getXMLAttribute( xmlRow , "nPad" ) .c_str() ) ;
 	  double padPitch  =  atof(  getXMLAttribute( xmlRow, "padPitch" ) .c_str() ) ;
-- 
2.43.0


From dd5dd8787eebcf3fc43ec58eac397e975e0c1286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 26/40] fix: comments and the order of elements do not change
 what merging combines

---
 src/gearxml/MergeXML.cc | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index b9cde70..414d1ef 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -2,6 +2,7 @@
 #include "gearxml/MergeXML.h"
 
 #include <iostream>
+#include <map>
 #include <memory>
 #include <sstream>
 
@@ -59,12 +60,12 @@ namespace gear{
     TiXmlDocument fileMerged( domFile ) ;
     
     // check if files are geartype
-    const TiXmlNode* nodeGear = file.FirstChild( gear ) ;
-    TiXmlNode* nodeGearMerged = fileMerged.FirstChild( gear ) ;
+    const TiXmlNode* nodeGear = file.FirstChildElement( gear ) ;
+    TiXmlNode* nodeGearMerged = fileMerged.FirstChildElement( gear ) ;
 
     if ( not ( nodeGear && nodeGearMerged
-	       && nodeGear->FirstChild( detectors ) 
-	       && nodeGearMerged->FirstChild( detectors )
+	       && nodeGear->FirstChildElement( detectors ) 
+	       && nodeGearMerged->FirstChildElement( detectors )
 	       )) {
       
       // give out information and quit
@@ -98,8 +99,7 @@ namespace gear{
   void MergeXML::mergeNode( const TiXmlNode* node, TiXmlNode* domNode ) {
 
     // during the loop count occurences of same Name
-    int occurence = 0 ;
-    std::string lastName ;
+    std::map< std::pair<bool,std::string> , int > occurences ;
 
 
     // debug information
@@ -119,6 +119,9 @@ namespace gear{
     const TiXmlNode* loopNode = 0 ;
     while (( loopNode = ( node->IterateChildren( loopNode ) )))
       {
+	// only elements are merged
+	if ( ! loopNode->ToElement() ) continue ;
+
 	// debug information
 	//std::cout << " loopNode " << loopNode -> Value() << std::endl ;
 
@@ -145,13 +148,7 @@ namespace gear{
 	
 
 	// count occurences of same name
-	if ( lastName == getNodeName( loopNode ) ) {
-	     occurence ++ ;
-	}
-	else {
-	  occurence = 1 ;
-	}
-	lastName = getNodeName( loopNode ) ;
+	const int occurence = ++occurences[ std::make_pair( hasAttribute( loopNode ) , getNodeName( loopNode ) ) ] ;
 
 	// get the appropriate child note from dominant node
 	TiXmlNode* domChildNode = getChildNode( loopNode, domNode, occurence ) ;
@@ -162,7 +159,7 @@ namespace gear{
 	  domNode->InsertEndChild( *loopNode ) ;
 
 	  // debug information
-	  //std::cout << " Added node " << lastName << std::endl ;
+	  //std::cout << " Added node " << getNodeName( loopNode ) << std::endl ;
 	}
 	else {
 	  // check if nodes are elements
@@ -232,7 +229,7 @@ namespace gear{
       std::string loopName = getNodeName( loopNode ) ;
 
       // if we have to look for name
-      if ( ( loopName == strName ) && ( hasAttribute(childNode) == hasAttribute(loopNode) ) ) {
+      if ( ( loopName == strName ) && ( hasAttribute(childNode) == hasAttribute(loopNode) ) && loopNode->ToElement() ) {
 	// count up
 	counter ++ ;
       }
@@ -274,7 +271,7 @@ namespace gear{
 	
 	// if found return
 	// if names and attributes match
-	if( (loopName == searchName) && ( hasAttribute(node) == hasAttribute(loopNode) ) ) {
+	if( (loopName == searchName) && ( hasAttribute(node) == hasAttribute(loopNode) ) && loopNode->ToElement() ) {
 	  occurence ++ ;
 	  // debug information
 	  //std::cout << "      found "<< occurence << " of " << getOccurence << std::endl ;
@@ -312,7 +309,11 @@ namespace gear{
 	const char* domAttribute = domElement->Attribute( attName ) ;
 
 	// a value that is given as contents of the dominant element stays the value
-	const bool valueInContents = ( attName == "value" ) && domElement->FirstChild() && domElement->FirstChild()->ToText() ;
+	const TiXmlNode* contents = domElement->FirstChild() ;
+	while( contents && ! contents->ToText() )
+	  contents = contents->NextSibling() ;
+
+	const bool valueInContents = ( attName == "value" ) && contents ;
 
 	if( domAttribute == NULL && ! valueInContents ) {
 
-- 
2.43.0


From 3ec79ca0aa1ef840a0db03fb50cba51be0b290a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:26 +0000
Subject: [PATCH 27/40] fix: a map factory request with other coordinates is
 another map

The factory recognised a grid by its ranges and steps only, so asking for the
same numbers in another coordinate system returned the map made first.
---
 src/geartgeo/MaterialMapFactory.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geartgeo/MaterialMapFactory.cc b/src/geartgeo/MaterialMapFactory.cc
index 243875c..8cb8282 100644
--- a/src/geartgeo/MaterialMapFactory.cc
+++ b/src/geartgeo/MaterialMapFactory.cc
@@ -16,9 +16,9 @@ namespace gear {
 					 double zmin, double zmax, int nzsteps, 
 					 int coord)
   {
-    double gridA[]={xmin,xmax,double(nxsteps),ymin,ymax,double(nysteps),zmin,zmax,double(nzsteps)};
+    double gridA[]={xmin,xmax,double(nxsteps),ymin,ymax,double(nysteps),zmin,zmax,double(nzsteps),double(coord)};
     std::vector<double> gridV;
-    gridV.assign(gridA,gridA+9);
+    gridV.assign(gridA,gridA+10);
 
     if(_managerMap.find(gridV)==_managerMap.end())
 	_managerMap[gridV]=new MaterialMap(_gearMgr,xmin,xmax,nxsteps,ymin,ymax,nysteps,zmin,zmax,nzsteps,coord);
-- 
2.43.0


From ef56ba3a5eff4d5deea1b0e661f62f2a73d0c582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:26 +0000
Subject: [PATCH 28/40] fix: refuse a material map whose ranges and steps
 contradict each other

No steps over a range wrote behind the end of the map, steps over an empty
range never ended.
---
 src/geartgeo/MaterialMap.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geartgeo/MaterialMap.cc b/src/geartgeo/MaterialMap.cc
index 70755df..afd0f13 100644
--- a/src/geartgeo/MaterialMap.cc
+++ b/src/geartgeo/MaterialMap.cc
@@ -17,6 +17,8 @@ namespace gear {
       throw gear::Exception("MaterialMap constructor: Grid range error (max value is smaller than min)!");   
     if(nxsteps<0 || nysteps<0 || nzsteps<0)
       throw gear::Exception("MaterialMap constructor: Grid step error (number of steps must be positive number)!");   
+    if((nxsteps==0)!=(xmin==xmax) || (nysteps==0)!=(ymin==ymax) || (nzsteps==0)!=(zmin==zmax))
+      throw gear::Exception("MaterialMap constructor: Grid step error (no steps if and only if min and max are the same)!");   
     switch (coord)
       {
       case MaterialMap::CARTESIAN :
-- 
2.43.0


From 1c234ace80faf80a13b810b6bf32f887d81cf0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:26 +0000
Subject: [PATCH 29/40] fix: fill every plane of a material map

Adding up the step could end before the last plane, whose values stayed 0.
---
 src/geartgeo/MaterialMap.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/geartgeo/MaterialMap.cc b/src/geartgeo/MaterialMap.cc
index afd0f13..6da6e0c 100644
--- a/src/geartgeo/MaterialMap.cc
+++ b/src/geartgeo/MaterialMap.cc
@@ -88,12 +88,16 @@ namespace gear {
     initial[1]=0;
     initial[2]=0;
     
-    for(double x= xmin;x<=xmax;x+=_xstep)//or r
+    //the planes are counted: adding up steps can miss the last plane
+    for(int ix=0;ix<=nxsteps;++ix)//or r
       {
-	for(double y= ymin;y<=ymax;y+=_ystep)// or phi or theta
+	const double x=xmin+ix*_xstep;
+	for(int iy=0;iy<=nysteps;++iy)// or phi or theta
 	  {
-	    for(double z= zmin;z<=zmax;z+=_zstep) //or theta
+	    const double y=ymin+iy*_ystep;
+	    for(int iz=0;iz<=nzsteps;++iz) //or theta
 	      {
+		const double z=zmin+iz*_zstep;
 		//GearDistanceProperties need coordinates in cartesian x,y,z
 		switch (coord)
 		  {
@@ -131,9 +135,7 @@ namespace gear {
 		    _values.first=gDP.getNRadlen( initial, final);
 		    _values.second=gDP.getNIntlen( initial, final);     
 		  }
-		std::vector<int> pos;
-		calculateGridIndex(pos,x,y,z);
-		_myMap[pos[0]][pos[1]][pos[2]]=_values;
+		_myMap[ix][iy][iz]=_values;
 	      }//z
 	  }//y
       }//x
-- 
2.43.0


From 4e0e88d18cf7930875c5f9fb61feedcd25cb1349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:26 +0000
Subject: [PATCH 30/40] fix: find the cell of a point in a material map by its
 index

With fmod the rounding of a point on a grid plane could leave the wrong plane
as the only neighbour, or none (the answer was not a number).
---
 src/geartgeo/MaterialMap.cc | 47 ++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/src/geartgeo/MaterialMap.cc b/src/geartgeo/MaterialMap.cc
index 6da6e0c..48ec8f7 100644
--- a/src/geartgeo/MaterialMap.cc
+++ b/src/geartgeo/MaterialMap.cc
@@ -175,42 +175,35 @@ namespace gear {
 
   void MaterialMap::interpolateOnGrid(std::pair<double,double> &result, double x, double y, double z) const
   {
-    //find eight neighbouring grid points
+    //find eight neighbouring grid points, of which only those within the grid count
+    const double p[3]={x,y,z}, pmin[3]={_xmin,_ymin,_zmin}, pstep[3]={_xstep,_ystep,_zstep};
+    const int nsteps[3]={_nxsteps,_nysteps,_nzsteps};
+    int first[3], count[3];
     double px[2],py[2],pz[2];
-    px[0]=x-fmod(x-_xmin,_xstep);
-    px[1]=px[0]+_xstep;
-    py[0]=y-fmod(y-_ymin,_ystep);
-    py[1]=py[0]+_ystep;
-    pz[0]=z-fmod(z-_zmin,_zstep);
-    pz[1]=pz[0]+_zstep;
-    //check wether they are within grid
-    int xcount=0,ycount=0,zcount=0;
-    if(_xmin<=px[0] && px[0]<=_xmax) 
-      xcount++;      
-    if(_xmin<=px[1] && px[1]<=_xmax)
-      xcount++;
-    if(_ymin<=py[0] && py[0]<=_ymax)
-      ycount++;
-    if(_ymin<=py[1] && py[1]<=_ymax)
-      ycount++;
-    if(_zmin<=pz[0] && pz[0]<=_zmax)
-      zcount++;
-    if(_zmin<=pz[1] && pz[1]<=_zmax)
-      zcount++;
+    double* pos[3]={px,py,pz};
+    for(int k=0;k<3;k++)
+      {
+	first[k]=int(floor((p[k]-pmin[k])/pstep[k]));
+	if(first[k]<0)
+	  first[k]=0;
+	if(first[k]>nsteps[k])
+	  first[k]=nsteps[k];
+	count[k]=(first[k]<nsteps[k] ? 2 : 1);
+	pos[k][0]=pmin[k]+first[k]*pstep[k];
+	pos[k][1]=pmin[k]+(first[k]+1)*pstep[k];
+      }
     //calculate distances from x,y,z to each neighbour
     int counter=0;
     double sumIntL=0,sumRadL=0,sumWeight=0;
     bool isOnGrid=false;
-    for(int ix=0;ix<xcount;ix++)
+    for(int ix=0;ix<count[0];ix++)
       {
-	for(int iy=0;iy<ycount;iy++)
+	for(int iy=0;iy<count[1];iy++)
 	  {
-	    for(int iz=0;iz<zcount;iz++)
+	    for(int iz=0;iz<count[2];iz++)
 	      {
 		double d=sqrt((x-px[ix])*(x-px[ix])+(y-py[iy])*(y-py[iy])+(z-pz[iz])*(z-pz[iz]));
-		std::vector<int>  gpos;
-		calculateGridIndex(gpos,px[ix],py[iy],pz[iz]);
-		std::pair<double,double> vals=_myMap[gpos[0]][gpos[1]][gpos[2]];
+		std::pair<double,double> vals=_myMap[first[0]+ix][first[1]+iy][first[2]+iz];
 		counter++;
 		if(fabs(d)<1e-5)//point in querry is a grid point
 		  {
-- 
2.43.0


From e62f33bee8366ebe1a9840b2d8050e358c388678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:26 +0000
Subject: [PATCH 31/40] fix: a failed or empty track query leaves no half
 answer in memory

A query between equal points emptied one of the lists of the track in memory,
and a query that failed left an unfinished one; the next query of the same
track answered from them (and read behind the end of the shorter list).
---
 .../geartgeo/TGeoGearDistanceProperties.h     |  2 +
 src/geartgeo/TGeoGearDistanceProperties.cc    | 46 ++++++++-----------
 2 files changed, 22 insertions(+), 26 deletions(-)

diff --git a/include/gear/geartgeo/TGeoGearDistanceProperties.h b/include/gear/geartgeo/TGeoGearDistanceProperties.h
index 75ef309..a08df00 100644
--- a/include/gear/geartgeo/TGeoGearDistanceProperties.h
+++ b/include/gear/geartgeo/TGeoGearDistanceProperties.h
@@ -69,6 +69,8 @@ protected:
     //two points to keep track of what has already been called and in memory at the moment
     mutable Vector3D _p0{};
     mutable Vector3D _p1{};
+    //true if the containers below hold the complete answer for _p0 and _p1
+    mutable bool _valid{false};
     //containers for data evaluated during tracking in beamOn
     //they have to be mutable in order to be changed by beamOn
     //beamOn is const otherwise it could not be called,
diff --git a/src/geartgeo/TGeoGearDistanceProperties.cc b/src/geartgeo/TGeoGearDistanceProperties.cc
index a27cf66..6ef22c5 100644
--- a/src/geartgeo/TGeoGearDistanceProperties.cc
+++ b/src/geartgeo/TGeoGearDistanceProperties.cc
@@ -19,18 +19,20 @@ namespace gear {
   void TGeoGearDistanceProperties::beamOn(const Vector3D &p0, const Vector3D &p1) const
   {
     //check if this point was just computetd and the values are still in memory
-    if(p0==_p0 && p1==_p1)
+    if(_valid && p0==_p0 && p1==_p1)
+      return;
+
+    //nothing is in memory until the computation below is complete
+    _valid=false;
+    _volNames.clear();
+    _matNames.clear();
+    _distance.clear();
+    _intLen.clear();
+    _radLen.clear();
+
+    //check if p0 and p1 are the same point, if so there is no material in between
+    if(p0==p1)
       return;
-    else{
-      _p0=p0;
-      _p1=p1;
-      _volNames.clear();
-      _matNames.clear();
-      _distance.clear();
-      _intLen.clear();
-      _radLen.clear();
-    }
-    
 
     // printf( " ----- beamOn  called :  %1.8e   %1.8e   %1.8e   %1.8e   %1.8e   %1.8e \n" , 
     // 	    p0[0], p0[1], p0[2], p1[0], p1[1], p1[2] ) ;
@@ -125,17 +127,17 @@ namespace gear {
       }
     _tgeomanager->ClearTracks();
     _tgeomanager->CleanGarbage();
+
+    _p0=p0;
+    _p1=p1;
+    _valid=true;
   }
 
   /** List of matrial names along the distance between [p0,p1] .
    */
   const std::vector<std::string>&  TGeoGearDistanceProperties::getMaterialNames(const Vector3D & p0, const Vector3D & p1) const {
     
-    //check if itp0 and p1 are the same point, if so don't do anything, no material in between
-    if(p0==p1)
-      _matNames.clear();
-    else
-      beamOn(p0, p1);
+    beamOn(p0, p1);
     
     return _matNames;
   }
@@ -144,11 +146,7 @@ namespace gear {
    */
   const std::vector<std::string>  TGeoGearDistanceProperties::getVolumeNames(const Vector3D & p0, const Vector3D & p1) const {
     
-    //check if itp0 and p1 are the same point, if so don't do anything, no material in between
-    if(p0==p1)
-      _volNames.clear();
-    else
-      beamOn(p0, p1);
+    beamOn(p0, p1);
     
     return _volNames;
   }
@@ -158,11 +156,7 @@ namespace gear {
    */
   const std::vector<double>&  TGeoGearDistanceProperties::getMaterialThicknesses(const Vector3D & p0, const Vector3D & p1) const {
         
-    //check if itp0 and p1 are the same point, if so don't do anything, no material in between
-    if(p0==p1)
-      _distance.clear();
-    else
-      beamOn(p0, p1);
+    beamOn(p0, p1);
     
     return _distance;
   }
-- 
2.43.0


From 6c92bbf68eb01782cbea18f4eb1cfb81ec8c545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:26 +0000
Subject: [PATCH 32/40] fix: count the last leg of a track that ends before the
 top volume does

When the next boundary was the end of the top volume the leg to the end point
was dropped.
---
 src/geartgeo/TGeoGearDistanceProperties.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/geartgeo/TGeoGearDistanceProperties.cc b/src/geartgeo/TGeoGearDistanceProperties.cc
index 6ef22c5..d94544d 100644
--- a/src/geartgeo/TGeoGearDistanceProperties.cc
+++ b/src/geartgeo/TGeoGearDistanceProperties.cc
@@ -63,8 +63,7 @@ namespace gear {
 	TVirtualGeoTrack *track; 
 	node2 = _tgeomanager->FindNextBoundaryAndStep(500, 1) ;
 	
-	if(!node2 || _tgeomanager->IsOutside())
-	  break;
+	bool leaving = ( !node2 || _tgeomanager->IsOutside() );
 	
 	const double *position =(double*) _tgeomanager->GetCurrentPoint();
 	const double *previouspos =(double*) _tgeomanager->GetLastPoint();
@@ -74,7 +73,7 @@ namespace gear {
 	//work around until solution within root can be found when the step gets very small e.g. 1e-10
 	//and the next boundary is never reached
 	
-	if(length<MINSTEP)
+	if(!leaving && length<MINSTEP)
 	  {
 	    _tgeomanager->SetCurrentPoint(position[0]+MINSTEP*direction[0], position[1]+MINSTEP*direction[1], position[2]+MINSTEP*direction[2]);
 	    length=_tgeomanager->GetStep();
@@ -92,12 +91,16 @@ namespace gear {
 	Vector3D posV( position ) ;
 	double currDistance = ( posV - p0 ).r() ;
 
+	//the top volume ends before the end point
+	if( leaving && currDistance < totDist )
+	  break;
+
 	// //if the next boundary is further than end point
 	//  if(fabs(position[0])>fabs(endpoint[0]) || fabs(position[1])>fabs(endpoint[1]) 
 	//  || fabs(position[2])>fabs(endpoint[2]))
 
 	//if we travelled too far:
-	 if( currDistance > totDist  )
+	 if( leaving || currDistance > totDist  )
 	  {
 	    length=sqrt(pow(endpoint[0]-previouspos[0],2)
 			+pow(endpoint[1]-previouspos[1],2)
-- 
2.43.0


From 22c142c48bf8b25a9caf14ebe053157c70df4f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:26 +0000
Subject: [PATCH 33/40] fix: count the step that follows a very small one

After a step below MINSTEP the volume that was entered was crossed with the
length of the small step and the name of the volume before.
---
 src/geartgeo/TGeoGearDistanceProperties.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geartgeo/TGeoGearDistanceProperties.cc b/src/geartgeo/TGeoGearDistanceProperties.cc
index d94544d..9510b1b 100644
--- a/src/geartgeo/TGeoGearDistanceProperties.cc
+++ b/src/geartgeo/TGeoGearDistanceProperties.cc
@@ -76,8 +76,10 @@ namespace gear {
 	if(!leaving && length<MINSTEP)
 	  {
 	    _tgeomanager->SetCurrentPoint(position[0]+MINSTEP*direction[0], position[1]+MINSTEP*direction[1], position[2]+MINSTEP*direction[2]);
-	    length=_tgeomanager->GetStep();
+	    //what follows is the step through the volume that was just entered
+	    node1=node2;
 	    node2 = _tgeomanager->FindNextBoundaryAndStep(500, 1) ;
+	    length=_tgeomanager->GetStep();
 
 	    //fg: need to update positions as well !?
 	    position = (const double*) _tgeomanager->GetCurrentPoint();
-- 
2.43.0


From 3456fbb8ecac9324a72f386c9b5e11d8e20c2684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:27 +0000
Subject: [PATCH 34/40] fix: local position of the point that was asked for

The transformation was the one of the volume of some earlier query.
---
 src/geartgeo/TGeoGearPointProperties.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geartgeo/TGeoGearPointProperties.cc b/src/geartgeo/TGeoGearPointProperties.cc
index 133ba11..599b96b 100644
--- a/src/geartgeo/TGeoGearPointProperties.cc
+++ b/src/geartgeo/TGeoGearPointProperties.cc
@@ -139,6 +139,11 @@ namespace gear {
     const Double_t global[3]={pos[0],pos[1],pos[2]};
     Double_t local[3];
 
+    //the transformation is the one of the current node, so make the node at pos the current one
+    TGeoNode *node=_tgeomanager->FindNode(pos[0],pos[1],pos[2]);
+    if(!node)
+      throw OutsideGeometryException("No geometry node found at given location. Either there is no node placed here or position is outside of top volume.");
+
     _tgeomanager->MasterToLocal(global, local);
     
     return Vector3D(local[0],local[1],local[2]) ;
-- 
2.43.0


From 9dc1a8057391bc2c229be0aa1d57e75942dd70d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:48 +0000
Subject: [PATCH 35/40] fix: extent of a module whose angles exceed 2pi

The directions in which a circle reaches farthest were only looked for in
[-2pi:2pi], so a pad layout that extends beyond 2pi could have pads outside
of the reported extent of its module.
---
 src/gearimpl/TPCModuleImpl.cc | 78 +++++++++++++----------------------
 1 file changed, 28 insertions(+), 50 deletions(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index e44061d..04882e5 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -388,15 +388,11 @@ namespace gear {
 	Vector2D localOriginInGlobalCoordinates = localToGlobal( 0 , 0 );
 	double testYMax = localOriginInGlobalCoordinates[1] + localExtent[1]; // module centre + rMax
 	double localPhi1 = globalToLocal( localOriginInGlobalCoordinates[0], testYMax )[1];
-	// test for [0:2pi] and [-2pi:0]
-	double localPhi2 ;
-	if ( localPhi1 < 0 )
-	    localPhi2 = localPhi1 + 2*M_PI;
-	else
-	    localPhi2 = localPhi1 - 2*M_PI;
+	// the angle in [phiMin:phiMin+2pi]
+	while ( localPhi1 < localExtent[2] )            localPhi1 += 2*M_PI;
+	while ( localPhi1 > localExtent[2] + 2*M_PI )   localPhi1 -= 2*M_PI;
 	// change yMax if necessary
-	if (  ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) ) ||
-	       ( (localPhi2 > localExtent[2]) && (localPhi2 < localExtent[3]) )    )
+	if ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) )
 	{   // testYMax is in active sector, so it is automatically larger than the 
 	    // yMax of the edges
 	    yMax = testYMax;
@@ -408,16 +404,12 @@ namespace gear {
 	double testYMin = localOriginInGlobalCoordinates[1] - localExtent[1]; // module centre - rMax
 	localPhi1 = globalToLocal( localOriginInGlobalCoordinates[0], testYMin )[1];
 	// std::cout <<"#DEBUG localPhi1 for ymin "<< localPhi1<<std::endl;
-	// test for [0:2pi] and [-2pi:0]
-	if ( localPhi1 < 0 )
-	    localPhi2 = localPhi1 + 2*M_PI;
-	else
-	    localPhi2 = localPhi1 - 2*M_PI;
-	//std::cout <<"#DEBUG localPhi2 for ymin "<< localPhi2<<std::endl;
+	// the angle in [phiMin:phiMin+2pi]
+	while ( localPhi1 < localExtent[2] )            localPhi1 += 2*M_PI;
+	while ( localPhi1 > localExtent[2] + 2*M_PI )   localPhi1 -= 2*M_PI;
 
 	// change yMin if necessary
-	if (  ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) ) ||
-	       ( (localPhi2 > localExtent[2]) && (localPhi2 < localExtent[3]) )    )
+	if ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) )
 	{   // testYMin is in active sector, so it is automatically larger than the 
 	    // yMax of the edges
 	    yMin = testYMin;
@@ -426,14 +418,11 @@ namespace gear {
 	// test tho possible new xMax
 	double testXMax = localOriginInGlobalCoordinates[0] + localExtent[1]; // module centre + rMax
 	localPhi1 = globalToLocal( testXMax, localOriginInGlobalCoordinates[1] )[1];
-	// test for [0:2pi] and [-2pi:0]
-	if ( localPhi1 < 0 )
-	    localPhi2 = localPhi1 + 2*M_PI;
-	else
-	    localPhi2 = localPhi1 - 2*M_PI;
+	// the angle in [phiMin:phiMin+2pi]
+	while ( localPhi1 < localExtent[2] )            localPhi1 += 2*M_PI;
+	while ( localPhi1 > localExtent[2] + 2*M_PI )   localPhi1 -= 2*M_PI;
 	// change yMax if necessary
-	if (  ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) ) ||
-	       ( (localPhi2 > localExtent[2]) && (localPhi2 < localExtent[3]) )    )
+	if ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) )
 	{   // testXMax is in active sector, so it is automatically larger than the 
 	    // yMax of the edges
 	    xMax = testXMax;
@@ -442,14 +431,11 @@ namespace gear {
 	// test the possible new xMin
 	double testXMin = localOriginInGlobalCoordinates[0] - localExtent[1]; // module centre - rMax
 	localPhi1 = globalToLocal( testXMin, localOriginInGlobalCoordinates[1] )[1];
-	// test for [0:2pi] and [-2pi:0]
-	if ( localPhi1 < 0 )
-	    localPhi2 = localPhi1 + 2*M_PI;
-	else
-	    localPhi2 = localPhi1 - 2*M_PI;
+	// the angle in [phiMin:phiMin+2pi]
+	while ( localPhi1 < localExtent[2] )            localPhi1 += 2*M_PI;
+	while ( localPhi1 > localExtent[2] + 2*M_PI )   localPhi1 -= 2*M_PI;
 	// change yMax if necessary
-	if (  ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) ) ||
-	       ( (localPhi2 > localExtent[2]) && (localPhi2 < localExtent[3]) )    )
+	if ( (localPhi1 > localExtent[2]) && (localPhi1 < localExtent[3]) )
 	{   // testYMax is in active sector, so it is automatically larger than the 
 	    // yMax of the edges
 	    xMin = testXMin;
@@ -527,18 +513,14 @@ namespace gear {
 	    }
 
 	    // test if rMin direction is in pad plane
-	    // test for [0:2pi] and [-2pi:0]
-	    double phiTest1 =  fmod(globalOriginInLocal[1], 2*M_PI);
-	    double phiTest2;
-	    if ( phiTest1 < 0 )
-		phiTest2 = phiTest1 + 2*M_PI;
-	    else
-		phiTest2 = phiTest1 - 2*M_PI;
+	    // the angle in [phiMin:phiMin+2pi]
+	    double phiTest1 =  globalOriginInLocal[1];
+	    while ( phiTest1 < localExtent[2] )            phiTest1 += 2*M_PI;
+	    while ( phiTest1 > localExtent[2] + 2*M_PI )   phiTest1 -= 2*M_PI;
 	    
 	    double rMin;
-	    // one of the two has to be in the active area for this to be the real rMin
-	    if ( ( (phiTest1 > localExtent[2]) && (phiTest1 < localExtent[3]) ) ||
-		 ( (phiTest2 > localExtent[2]) && (phiTest2 < localExtent[3]) ) )
+	    // it has to be in the active area for this to be the real rMin
+	    if ( (phiTest1 > localExtent[2]) && (phiTest1 < localExtent[3]) )
 	    {
 
 		//std::cout << "#rmin in active area"<< std::endl;
@@ -628,18 +610,14 @@ namespace gear {
 	    }
 
 	    // now rMax
-	    // test for [0:2pi] and [-2pi:0], the direction opposite of the origin
-	    double phiTest3 =  fmod(globalOriginInLocal[1] + M_PI, 2*M_PI);
-	    double phiTest4;
-	    if ( phiTest3 < 0 )
-		phiTest4 = phiTest3 + 2*M_PI;
-	    else
-		phiTest4 = phiTest3 - 2*M_PI;
+	    // the direction opposite of the origin, in [phiMin:phiMin+2pi]
+	    double phiTest3 =  globalOriginInLocal[1] + M_PI;
+	    while ( phiTest3 < localExtent[2] )            phiTest3 += 2*M_PI;
+	    while ( phiTest3 > localExtent[2] + 2*M_PI )   phiTest3 -= 2*M_PI;
 				
 	    double rMax;
-	    // one of the two has to be in the active area for this to be the real rMax
-	    if ( ( (phiTest3 > localExtent[2]) && (phiTest3 < localExtent[3]) ) ||
-		 ( (phiTest4 > localExtent[2]) && (phiTest4 < localExtent[3]) ) )
+	    // it has to be in the active area for this to be the real rMax
+	    if ( (phiTest3 > localExtent[2]) && (phiTest3 < localExtent[3]) )
 	    {
 		//std::cout << "#rmax in active area"<< std::endl;
 		// rMax is the sum of local rMax and the distance to the origin
-- 
2.43.0


From a8c882ebd5df5e567b6c8f630265e23509718dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:48 +0000
Subject: [PATCH 36/40] fix: border of a module that is almost a full circle

The border in phi was half of what is too much instead of half of the gap,
with the wrong sign, so pads next to the gap were not in the module. The
extent of a full circle must not become empty by rounding.
---
 src/gearimpl/TPCModuleImpl.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 04882e5..080a752 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -235,7 +235,7 @@ namespace gear {
 		    if (phiMax - phiMin > 2*M_PI)
 		    {
 			// the border should be half of the gap between the pad layout edged
-			phiBorder = (2*M_PI - phiMax + phiMin)/2.;
+			phiBorder = (2*M_PI - _padRowLayout->getPlaneExtent()[3] + _padRowLayout->getPlaneExtent()[2])/2.;
 			phiMin = _padRowLayout->getPlaneExtent()[2] - phiBorder;
 			phiMax = _padRowLayout->getPlaneExtent()[3] + phiBorder;
 		    }
@@ -472,13 +472,13 @@ namespace gear {
 	      phiMax = M_PI - localExtent[2] - _angle;
 	    }
 
-	    // force phiMax to 0 .. 2*M_PI
-	    while (phiMax > 2*M_PI)  phiMax -= 2*M_PI;
-	    while (phiMax <  0     )  phiMax += 2*M_PI;
+	    // force phiMax to 0 .. 2*M_PI, phiMin goes along
+	    while (phiMax > 2*M_PI) { phiMax -= 2*M_PI; phiMin -= 2*M_PI; }
+	    while (phiMax <  0     ) { phiMax += 2*M_PI; phiMin += 2*M_PI; }
 	    
-	    // force phiMin to be smaller than phiMax, but max 
+	    // force phiMin to be smaller than phiMax, but not by more than a full circle
 	    while ( phiMin > phiMax          )  phiMin -= 2*M_PI;
-	    while ( phiMin < phiMax - 2*M_PI )  phiMin += 2*M_PI;
+	    if    ( phiMin < phiMax - 2*M_PI )  phiMin = phiMax - 2*M_PI;
 
 	    std::vector<double> globalExtent;
 	    globalExtent.push_back(localExtent[0]);
-- 
2.43.0


From 225f929b3c7958b8bd3ca21fec38cb23ab295de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:48 +0000
Subject: [PATCH 37/40] fix: the pads of disk layouts contain their points in
 every turn of the angle

---
 src/gearimpl/FixedDiskLayoutBase.cc     | 4 ++++
 src/gearimpl/FixedPadAngleDiskLayout.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/gearimpl/FixedDiskLayoutBase.cc b/src/gearimpl/FixedDiskLayoutBase.cc
index 0bc1124..280b90d 100644
--- a/src/gearimpl/FixedDiskLayoutBase.cc
+++ b/src/gearimpl/FixedDiskLayoutBase.cc
@@ -22,6 +22,10 @@ double FixedDiskLayoutBase::getDistanceToPad(double r, double phi, int padIndex)
 	// calculate the outer coordinates of the pad (for code readability)
 	Vector2D padCenter = getPadCenter( padIndex);
 
+	// wrap phi to a symmetric range of 2*pi around the centre of the pad
+	if( std::fabs( phi - padCenter[1] ) > M_PI && std::isfinite( phi ) )
+	    phi = padCenter[1] + std::remainder( phi - padCenter[1] , 2. * M_PI ) ;
+
 	double r_min = padCenter[0] - getRowHeight( getRowNumber(padIndex) ) /2.;
 	double r_max = padCenter[0] + getRowHeight( getRowNumber(padIndex) ) /2.;
 	double phi_min = padCenter[1]- getPadPitch( padIndex ) /2.;
diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index ea21615..520683f 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -350,6 +350,10 @@ namespace gear {
 //     }
       Vector2D padCenter = getPadCenter( padIndex);
 
+      // wrap phi to a symmetric range of 2*pi around the centre of the pad
+      if( std::fabs( phi - padCenter[1] ) > M_PI && std::isfinite( phi ) )
+          phi = padCenter[1] + std::remainder( phi - padCenter[1] , 2. * M_PI ) ;
+
       if( (r  < padCenter[0] - _rowHeight/2.) || (r > padCenter[0] + _rowHeight/2.) ||
 	  (phi < padCenter[1]- _padAngle/2.)  || (phi > padCenter[1]+_padAngle/2. ) )
 	  return false ;
-- 
2.43.0


From e13e275b648c2072772aebbd40bf52ef86c929d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:13 +0000
Subject: [PATCH 38/40] fix: VersatileDiskRowLayout finds the pads of rows that
 do not begin at angle 0

---
 src/gearimpl/VersatileDiskRowLayout.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 9e5fc12..acd3184 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -412,10 +412,10 @@ VersatileDiskRowLayout::Row::Row(int rowNumber, int nPads, double rCentre, doubl
 
 int VersatileDiskRowLayout::Row::getNearestPad(double r, double phi) const
 {
-    // wrap phi to 0 < phi < 2*M_PI
+    // wrap phi to the turn that begins with the first pad of the row
     
-	while( phi < 0       ) {  phi += 2. * M_PI  ; }
-    while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }
+	while( phi < _offset              ) {  phi += 2. * M_PI  ; }
+    while( phi >= _offset + 2. * M_PI ) {  phi -= 2. * M_PI  ; }
 	
 	//
 
@@ -424,6 +424,12 @@ int VersatileDiskRowLayout::Row::getNearestPad(double r, double phi) const
     if (phi < _offset + _nPads * _padPitch)
     {
 	int padNumber = static_cast<int>(floor( (phi - _offset)/ _padPitch ));
+
+	// the rounding of the wrap, and of the sum and the quotient at the end of the row
+	if( padNumber < 0 )
+	    padNumber = 0;
+	if( padNumber > _nPads - 1 )
+	    padNumber = _nPads - 1;
 	
 	return ( (_rowNumber<< 16) | (0x000ffff & padNumber) );
     }
@@ -441,10 +447,10 @@ int VersatileDiskRowLayout::Row::getNearestPad(double r, double phi) const
 
 double VersatileDiskRowLayout::Row::getDistanceToRow(double r, double phi) const
 {
-    // wrap phi to 0 < phi < 2*M_PI
+    // wrap phi to the turn that begins with the first pad of the row
     
-	while( phi < 0       ) {  phi += 2. * M_PI  ; }
-    while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }
+	while( phi < _offset              ) {  phi += 2. * M_PI  ; }
+    while( phi >= _offset + 2. * M_PI ) {  phi -= 2. * M_PI  ; }
 	
     // copy the code from getDistanceToPad....
 
-- 
2.43.0


From c8d3cbf57a050b53ed57ca7bcf6ea57eba3db10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:20 +0000
Subject: [PATCH 39/40] fix: FixedPadSizeDiskLayout::getNearestPad finds the
 pad of a point in any turn of the angle

---
 src/gearimpl/FixedPadSizeDiskLayout.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index e78337b..ed47158 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -294,8 +294,9 @@ namespace gear {
 	
 	} else {
 	 
-	  while( phi < -2*M_PI       ) {  phi += 2. * M_PI  ; }
-	  while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }
+	  // wrap phi to a symmetric range of 2*pi around the middle of the pad plane
+	  while( phi < 0.5 * _phiMax - M_PI ) {  phi += 2. * M_PI  ; }
+	  while( phi > 0.5 * _phiMax + M_PI ) {  phi -= 2. * M_PI  ; }
 	  
 	  rProjectedOnPhiMax = r * cos(phi - _phiMax);
 	  rProjectedOnPhiMin = r * cos(phi - 0.);
-- 
2.43.0


From 805377b6c6950bf6674250dfaf9a4e4a357f8b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:14 +0000
Subject: [PATCH 40/40] fix: VersatileDiskRowLayout::isInsidePad takes an angle
 in any turn

---
 src/gearimpl/VersatileDiskRowLayout.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index acd3184..529dcff 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -348,11 +348,8 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
     double phiMin = row.getOffset() + row.getPadPitch()*pn;
 
     // wrap phi to phiMin .. phiMin + 2*pi
-    if (phi < phiMin)
-	phi += 2. * M_PI;
-
-    if (phi >= phiMin + 2*M_PI)
-	phi -= 2. * M_PI;
+    if (phi < phiMin || phi >= phiMin + 2*M_PI)
+	phi -= 2. * M_PI * std::floor( (phi - phiMin) / (2. * M_PI) );
 
     double phiMax = phiMin + row.getPadPitch();
 
@@ -362,6 +359,10 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
 
   bool VersatileDiskRowLayout::isInsidePad(double r, double phi) const {
 
+    // wrap phi to the turn that begins with the pad plane
+    if (phi < _extent[2] || phi >= _extent[2] + 2*M_PI)
+	phi -= 2. * M_PI * std::floor( (phi - _extent[2]) / (2. * M_PI) );
+
     //  outside of pad plane
     if( r < _extent[0] || r > _extent[1] || 
 	phi < _extent[2] || phi > _extent[3] )
-- 
2.43.0

