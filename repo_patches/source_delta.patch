From 7bc817c705e5ac6b916c4c62f10a1268ad453301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:27 +0000
Subject: [PATCH 01/28] fix: Use the element offset when gathering the bounds.

---
 lib/src/Converter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 75f4e0a..8120aed 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -688,7 +688,8 @@ bool Converter::convert()
 				}
 
 				VertexValue value;
-				auto offset = static_cast<std::size_t>(indexValue)*stream.vertexFormat.stride();
+				auto offset = static_cast<std::size_t>(indexValue)*stream.vertexFormat.stride() +
+					element.offset;
 				value.fromData(stream.vertexData + offset, element.layout, element.type);
 				value.expandBounds(elementRef.minVal, elementRef.maxVal);
 			}
-- 
2.43.0


From 2198bf8809f414060751abdbfd2f8de9204304d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:27 +0000
Subject: [PATCH 02/28] fix: Remove the duplicate vertex bytes rather than
 vertex streams on split.

---
 lib/src/Converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 8120aed..3177cc2 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -243,7 +243,7 @@ std::uint32_t addVertex(std::vector<std::vector<std::uint8_t>>& vertices,
 		assert(insertPair.first->index < ref.index);
 		// Remove the added vertex data.
 		for (std::size_t i = 0; i < vertices.size(); ++i)
-			vertices.resize(vertices[i].size() - vertexFormat[i].stride());
+			vertices[i].resize(vertices[i].size() - vertexFormat[i].stride());
 		return insertPair.first->index;
 	}
 
-- 
2.43.0


From ef52d5545069847c51a11831b686640ee2a02ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 03/28] fix: Keep the order of the copied triangle strip edge
 on split.

---
 lib/src/Converter.cpp | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 3177cc2..58b9432 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -363,22 +363,11 @@ void copyConnectedVertices(std::vector<std::vector<std::uint8_t>>& vertices,
 			}
 			else
 			{
-				// Reverse every other primitive.
-				std::uint32_t primitiveCount = stripIndexCount - 2;
-				if (primitiveCount & 1)
-				{
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 1, prevBaseVertex);
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 2, prevBaseVertex);
-				}
-				else
-				{
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 2, prevBaseVertex);
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 1, prevBaseVertex);
-				}
+				// Last edge of the strip, in order so the following triangles use the same vertices.
+				copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
+					baseVertex, indexCount - 2, prevBaseVertex);
+				copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
+					baseVertex, indexCount - 1, prevBaseVertex);
 				curIndexCount += 2;
 			}
 			break;
-- 
2.43.0


From d8b5df9ec33e90fb5b480a3ce6661ffd3ded2b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 04/28] fix: Reject a non-empty vertex stream after an empty
 one.

---
 lib/src/Converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 58b9432..b1d7a13 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -505,7 +505,7 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 	}
 
 	std::uint32_t finalIndexCount = hasIndices ? indexCount : vertexCount;
-	if (m_indexCount > 0 && m_indexCount != finalIndexCount)
+	if ((m_indexCount > 0 || !m_vertexStreams.empty()) && m_indexCount != finalIndexCount)
 	{
 		if (hasIndices)
 			logError("Mismatch between number of indices for vertex streams.");
-- 
2.43.0


From 665d5f711b965b3ba1d83ddab4c9658306430411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 05/28] fix: Fail to add a vertex stream to an invalid
 Converter.

---
 lib/src/Converter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index b1d7a13..bfddfed 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -497,6 +497,12 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 	std::uint32_t vertexCount, IndexType indexType, const void* indexData,
 	std::uint32_t indexCount)
 {
+	if (!isValid())
+	{
+		logError("Converter is invalid.");
+		return false;
+	}
+
 	bool hasIndices = indexType != IndexType::NoIndices;
 	if (!vertexData || (hasIndices && !indexData))
 	{
-- 
2.43.0


From 3657d11564c063a8e5160f37171b98d60bba68ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 06/28] fix: Don't produce vertex indices that equal the
 primitive restart index.

---
 lib/src/Converter.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index bfddfed..e36c32c 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -708,6 +708,11 @@ bool Converter::convert()
 		indexData = &m_indexData.back();
 	}
 
+	// Index values can't be the same as the primitive restart.
+	std::uint32_t maxIndex = m_maxIndexValue;
+	if (isPrimitiveRestart(maxIndex, primitiveRestartIndexValue(m_indexType), m_primitiveType))
+		--maxIndex;
+
 	unsigned int indexStride = primitiveIndexStride(m_primitiveType, m_patchPoints);
 	for (std::uint32_t i = 0; i < m_indexCount; i += indexStride)
 	{
@@ -715,7 +720,7 @@ bool Converter::convert()
 		auto vertexCount =
 			static_cast<std::uint32_t>(m_vertices[0].size()/m_vertexFormat[0].stride());
 		if (m_indexType != IndexType::NoIndices &&
-			vertexCount + indexStride - 1 - indexData->baseVertex > m_maxIndexValue)
+			vertexCount + indexStride - 1 - indexData->baseVertex > maxIndex)
 		{
 			std::int32_t baseVertex = vertexCount;
 			m_indexData.push_back(IndexData{reinterpret_cast<void*>(m_indices.size()),
@@ -822,7 +827,7 @@ bool Converter::convert()
 				std::uint32_t vertexIndex =
 					addVertex(m_vertices, m_vertexFormat, vertexData, vertexSet);
 				std::uint32_t indexValue = vertexIndex - indexData->baseVertex;
-				assert(indexValue <= m_maxIndexValue);
+				assert(indexValue <= maxIndex);
 				addIndex(m_indices, m_indexType, sizeofIndex, indexValue);
 				++indexData->count;
 			}
-- 
2.43.0


From 71e7dc47192561e56803aab17c092d0d2f054fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:17 +0000
Subject: [PATCH 07/28] fix: Saturate rather than overflow when packing 64-bit
 integers.

---
 lib/src/VertexValue.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/VertexValue.cpp b/lib/src/VertexValue.cpp
index 3d9fd59..2dabd50 100644
--- a/lib/src/VertexValue.cpp
+++ b/lib/src/VertexValue.cpp
@@ -220,6 +220,10 @@ inline void packSNormValues(T* data, const double* values, unsigned int count)
 template <typename T>
 inline T packInteger(double value, T minVal, T maxVal)
 {
+	// The maximum 64-bit integers round up out of range when converted to double.
+	if (value >= static_cast<double>(maxVal))
+		return maxVal;
+
 	return static_cast<T>(std::round(glm::clamp(value, static_cast<double>(minVal),
 		static_cast<double>(maxVal))));
 }
-- 
2.43.0


From ba306d2089af5c28df76e7e744f4f874e080da98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:17 +0000
Subject: [PATCH 08/28] fix: Correctly pack and unpack all Z10Y11X11_UFloat
 values.

---
 lib/src/VertexValue.cpp | 56 +++++++++++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 7 deletions(-)

diff --git a/lib/src/VertexValue.cpp b/lib/src/VertexValue.cpp
index 2dabd50..c71a865 100644
--- a/lib/src/VertexValue.cpp
+++ b/lib/src/VertexValue.cpp
@@ -288,6 +288,50 @@ inline void packHalfFloatValues(std::uint16_t* data, const double* values, unsig
 	std::memcpy(data, alignedData, sizeof(std::uint16_t)*count);
 }
 
+// The GLM functions don't handle small and large values, or zero next to a non-zero component.
+template <unsigned int mantissaBits>
+inline std::uint32_t packUFloat(double value)
+{
+	constexpr std::uint32_t infinity = 0x1FU << mantissaBits;
+	constexpr std::uint32_t mantissaRange = 1U << mantissaBits;
+	if (std::isnan(value))
+		return infinity | (mantissaRange - 1);
+	else if (std::isinf(value) && value > 0)
+		return infinity;
+	else if (value <= 0)
+		return 0;
+
+	int exponent;
+	double fraction = std::frexp(value, &exponent);
+	// Convert from range [0.5, 1) to [1, 2) and add bias.
+	exponent += 14;
+	if (exponent > 30)
+		return infinity - 1;
+	else if (exponent <= 0)
+		return static_cast<std::uint32_t>(std::round(std::ldexp(value, 14 + mantissaBits)));
+
+	// Rounding up may overflow into the exponent, which gives the correct value.
+	std::uint32_t result = (static_cast<std::uint32_t>(exponent) << mantissaBits) +
+		static_cast<std::uint32_t>(std::round((fraction*2 - 1)*mantissaRange));
+	return std::min(result, infinity - 1);
+}
+
+template <unsigned int mantissaBits>
+inline double unpackUFloat(std::uint32_t data)
+{
+	constexpr std::uint32_t mantissaRange = 1U << mantissaBits;
+	std::uint32_t mantissa = data & (mantissaRange - 1);
+	int exponent = (data >> mantissaBits) & 0x1F;
+	if (exponent == 0x1F)
+	{
+		return mantissa == 0 ? std::numeric_limits<double>::infinity() :
+			std::numeric_limits<double>::quiet_NaN();
+	}
+	else if (exponent == 0)
+		return std::ldexp(mantissa, -14 - static_cast<int>(mantissaBits));
+	return std::ldexp(mantissaRange + mantissa, exponent - 15 - static_cast<int>(mantissaBits));
+}
+
 } // namespace
 
 constexpr unsigned int VertexValue::count;
@@ -749,10 +793,9 @@ bool VertexValue::fromData(const void* data, ElementLayout layout, ElementType t
 				std::uint32_t dataValue;
 				std::memcpy(&dataValue, reinterpret_cast<const std::uint32_t*>(data),
 					sizeof(std::uint32_t));
-				glm::vec3 value = glm::unpackF2x11_1x10(dataValue);
-				m_values[0] = value[0];
-				m_values[1] = value[1];
-				m_values[2] = value[2];
+				m_values[0] = unpackUFloat<6>(dataValue);
+				m_values[1] = unpackUFloat<6>(dataValue >> 11);
+				m_values[2] = unpackUFloat<5>(dataValue >> 22);
 				m_values[3] = 1;
 				return true;
 			}
@@ -1209,9 +1252,8 @@ bool VertexValue::toData(void* outData, ElementLayout layout, ElementType type)
 		case ElementLayout::Z10Y11X11_UFloat:
 			if (type == ElementType::Float)
 			{
-				std::uint32_t outDataValue =
-					glm::packF2x11_1x10(glm::vec3(std::max(m_values[0], 0.0),
-						std::max(m_values[1], 0.0), std::max(m_values[2], 0.0)));
+				std::uint32_t outDataValue = packUFloat<6>(m_values[0]) |
+					(packUFloat<6>(m_values[1]) << 11) | (packUFloat<5>(m_values[2]) << 22);
 				std::memcpy(reinterpret_cast<std::uint32_t*>(outData), &outDataValue,
 					sizeof(std::uint32_t));
 				return true;
-- 
2.43.0


From 9c0d8a81d952e1c2453b0fb756305c5470d49b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:17 +0000
Subject: [PATCH 09/28] fix: Use the full range for packing E5Z9Y9X9_UFloat
 values.

---
 lib/src/VertexValue.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/lib/src/VertexValue.cpp b/lib/src/VertexValue.cpp
index c71a865..c502a6a 100644
--- a/lib/src/VertexValue.cpp
+++ b/lib/src/VertexValue.cpp
@@ -316,6 +316,30 @@ inline std::uint32_t packUFloat(double value)
 	return std::min(result, infinity - 1);
 }
 
+// The GLM function clamps to half of the maximum value.
+inline std::uint32_t packSharedExponent(double x, double y, double z)
+{
+	constexpr std::uint32_t mantissaRange = 1U << 9;
+	const double maxValue = std::ldexp(mantissaRange - 1, 31 - 15 - 9);
+	x = std::min(std::max(0.0, x), maxValue);
+	y = std::min(std::max(0.0, y), maxValue);
+	z = std::min(std::max(0.0, z), maxValue);
+
+	int exponent;
+	double maxComponent = std::max(x, std::max(y, z));
+	std::frexp(maxComponent, &exponent);
+	exponent = maxComponent > 0 ? std::max(exponent + 15, 0) : 0;
+	if (std::round(std::ldexp(maxComponent, 15 + 9 - exponent)) >= mantissaRange)
+		++exponent;
+
+	auto packComponent = [exponent](double value)
+	{
+		return static_cast<std::uint32_t>(std::round(std::ldexp(value, 15 + 9 - exponent)));
+	};
+	return packComponent(x) | (packComponent(y) << 9) | (packComponent(z) << 18) |
+		(static_cast<std::uint32_t>(exponent) << 27);
+}
+
 template <unsigned int mantissaBits>
 inline double unpackUFloat(std::uint32_t data)
 {
@@ -1264,8 +1288,7 @@ bool VertexValue::toData(void* outData, ElementLayout layout, ElementType type)
 			if (type == ElementType::Float)
 			{
 				std::uint32_t outDataValue =
-					glm::packF3x9_E1x5(glm::vec3(std::max(m_values[0], 0.0),
-						std::max(m_values[1], 0.0), std::max(m_values[2], 0.0)));
+					packSharedExponent(m_values[0], m_values[1], m_values[2]);
 				std::memcpy(reinterpret_cast<std::uint32_t*>(outData), &outDataValue,
 					sizeof(std::uint32_t));
 				return true;
-- 
2.43.0


From 2f19b90508410759fa050b8e3c89206e9099f246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:44 +0000
Subject: [PATCH 10/28] fix: Keep short index data strings alive until they are
 written.

---
 tool/main.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index e01ec50..39f4276 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -320,7 +320,7 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 	std::vector<IndexFileData> indexFileData;
 	std::vector<std::string> indexStrings;
 	indexFileData.reserve(converter.getIndices().size());
-	indexStrings.reserve(indexFileData.size());
+	indexStrings.reserve(converter.getIndices().size());
 	if (outputDir.empty())
 	{
 		for (const vfc::IndexData& indexData : converter.getIndices())
@@ -329,9 +329,9 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 				static_cast<std::size_t>(indexData.count)*vfc::indexSize(indexData.type);
 			std::string encodedData = "base64:";
 			encodedData.append(base64::encode(indexData.data, indexSize));
-			indexFileData.push_back(
-				IndexFileData{indexData.count, indexData.baseVertex, encodedData.c_str()});
 			indexStrings.push_back(std::move(encodedData));
+			indexFileData.push_back(
+				IndexFileData{indexData.count, indexData.baseVertex, indexStrings.back().c_str()});
 		}
 	}
 	else
@@ -352,9 +352,9 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 				return "";
 			}
 
-			indexFileData.push_back(
-				IndexFileData{indexData.count, indexData.baseVertex, indexDataPath.c_str()});
 			indexStrings.push_back(std::move(indexDataPath));
+			indexFileData.push_back(
+				IndexFileData{indexData.count, indexData.baseVertex, indexStrings.back().c_str()});
 		}
 	}
 
-- 
2.43.0


From 8852eea96f13a5ffb3dad84dcabd1b76b594ebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:44 +0000
Subject: [PATCH 11/28] fix: Report failures to write the output.

---
 tool/main.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index 39f4276..29409df 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -269,6 +269,7 @@ bool writeFile(const void* data, std::size_t size, const std::string& fileName)
 		return false;
 
 	stream.write(reinterpret_cast<const char*>(data), size);
+	stream.close();
 	return stream.good();
 }
 
@@ -442,6 +443,11 @@ int main(int argc, const char** argv)
 	if (result.empty())
 		return 1;
 
-	std::printf("%s\n", result.c_str());
+	if (std::printf("%s\n", result.c_str()) < 0 || std::fflush(stdout) != 0)
+	{
+		std::fprintf(stderr, "error: Couldn't write result.\n");
+		return 1;
+	}
+
 	return 0;
 }
-- 
2.43.0


From 5bc34e6113d45b054396fe118f24688a07246745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 12/28] fix: Report failures to read input files rather than
 throwing an exception.

---
 tool/ConfigFile.cpp | 19 ++++++++++++++++++-
 tool/main.cpp       | 10 ++++++++--
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index 3f2b5b2..5bf2f35 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -555,7 +555,24 @@ bool ConfigFile::load(const char* fileName, const vfc::Converter::ErrorFunction&
 bool ConfigFile::load(std::istream& stream, const char* fileName,
 	const vfc::Converter::ErrorFunction& errorFunction)
 {
-	std::string json(std::istreambuf_iterator<char>(stream), {});
+	assert(errorFunction);
+	// Use read() rather than iterators, which throw an exception on failure.
+	std::string json;
+	char buffer[4096];
+	do
+	{
+		stream.read(buffer, sizeof(buffer));
+		json.append(buffer, static_cast<std::size_t>(stream.gcount()));
+	} while (stream.good());
+	if (stream.bad())
+	{
+		std::string message = "error: Couldn't read config file '";
+		message += fileName;
+		message += "'.";
+		errorFunction(message.c_str());
+		return false;
+	}
+
 	return load(json.c_str(), fileName, errorFunction);
 }
 
diff --git a/tool/main.cpp b/tool/main.cpp
index 29409df..6ab5343 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -185,8 +185,14 @@ bool loadData(std::vector<std::uint8_t>& outData,  const std::string& configFile
 	std::ifstream stream(dataFilePath, std::ios_base::in | std::ios_base::binary);
 	if (stream.is_open())
 	{
-		outData.insert(outData.end(), std::istreambuf_iterator<char>(stream), {});
-		if (stream.good() || stream.eof())
+		// Use read() rather than iterators, which throw an exception on failure.
+		char buffer[4096];
+		do
+		{
+			stream.read(buffer, sizeof(buffer));
+			outData.insert(outData.end(), buffer, buffer + stream.gcount());
+		} while (stream.good());
+		if (!stream.bad())
 			return true;
 	}
 
-- 
2.43.0


From ad861c13c888a326337667ca1507182eeac391d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 13/28] fix: Don't overflow the stack when parsing deeply
 nested JSON.

---
 tool/ConfigFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index 5bf2f35..b08f18d 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -581,7 +581,7 @@ bool ConfigFile::load(const char* json, const char* fileName,
 {
 	assert(errorFunction);
 	rapidjson::Document document;
-	if (document.Parse(json).HasParseError())
+	if (document.Parse<rapidjson::kParseIterativeFlag>(json).HasParseError())
 	{
 		std::string message = errorMessageStart(json, fileName, document.GetErrorOffset());
 		message += getErrorString(document.GetParseError());
-- 
2.43.0


From e030c947c24013e828f357ac1b13501c5d6a58c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 14/28] fix: Output null rather than truncate the result for
 bounds that aren't finite.

---
 tool/ResultFile.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tool/ResultFile.cpp b/tool/ResultFile.cpp
index 22b6388..a9d56bb 100644
--- a/tool/ResultFile.cpp
+++ b/tool/ResultFile.cpp
@@ -18,6 +18,13 @@
 #include <rapidjson/document.h>
 #include <rapidjson/prettywriter.h>
 #include <cassert>
+#include <cmath>
+
+// JSON can't represent infinity and NaN.
+static rapidjson::Value boundsValue(double value)
+{
+	return std::isfinite(value) ? rapidjson::Value(value) : rapidjson::Value();
+}
 
 std::string resultFile(const std::vector<vfc::VertexFormat>& vertexFormat,
 	const std::vector<std::vector<Bounds>>& bounds, const std::vector<std::string>& vertexData,
@@ -61,8 +68,8 @@ std::string resultFile(const std::vector<vfc::VertexFormat>& vertexFormat,
 			maxBoundsArray.Reserve(4, document.GetAllocator());
 			for (unsigned int k = 0; k < 4; ++k)
 			{
-				minBoundsArray.PushBack(curBounds[j].min[k], document.GetAllocator());
-				maxBoundsArray.PushBack(curBounds[j].max[k], document.GetAllocator());
+				minBoundsArray.PushBack(boundsValue(curBounds[j].min[k]), document.GetAllocator());
+				maxBoundsArray.PushBack(boundsValue(curBounds[j].max[k]), document.GetAllocator());
 			}
 			elementObject.AddMember("minValue", minBoundsArray, document.GetAllocator());
 			elementObject.AddMember("maxValue", maxBoundsArray, document.GetAllocator());
-- 
2.43.0


From 318f751c7e9dd7ffb805fea3043268701a524984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:25 +0000
Subject: [PATCH 15/28] fix: loading a config again doesn't keep transforms and
 patch points of the previous one

---
 tool/ConfigFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index b08f18d..8ffc0da 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -328,11 +328,11 @@ static bool readPrimitiveType(vfc::PrimitiveType& outPrimitiveType, std::uint32_
 	const rapidjson::Value& rootValue, const char* fileName,
 	const vfc::Converter::ErrorFunction& errorFunction)
 {
+	outPatchPoints = 0;
 	auto primitiveTypeIt = rootValue.FindMember("primitiveType");
 	if (primitiveTypeIt == rootValue.MemberEnd() || primitiveTypeIt->value.IsNull())
 	{
 		outPrimitiveType = vfc::PrimitiveType::TriangleList;
-		outPatchPoints = 0;
 		return true;
 	}
 
@@ -629,6 +629,7 @@ bool ConfigFile::load(const char* json, const char* fileName,
 	if (m_vertexStreams.empty())
 		return false;
 
+	m_transforms.clear();
 	auto vertexTransformIt = document.FindMember("vertexTransforms");
 	if (vertexTransformIt != document.MemberEnd() &&
 		!readVertexTransforms(m_transforms, vertexTransformIt->value, fileName, errorFunction))
-- 
2.43.0


From afc2e38574b967eb4941ab525a5ef61ebd1bcdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:46 +0000
Subject: [PATCH 16/28] fix: Bounds with a tiny range were treated as having
 none

A component range below the double epsilon (an absolute 2.2e-16) was treated
as zero, so every value of the component was output as the same end of the
range.
---
 lib/src/VertexValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/VertexValue.cpp b/lib/src/VertexValue.cpp
index c502a6a..6408f1d 100644
--- a/lib/src/VertexValue.cpp
+++ b/lib/src/VertexValue.cpp
@@ -1311,7 +1311,7 @@ bool VertexValue::toData(void* outData, ElementLayout layout, ElementType type,
 			for (unsigned int i = 0; i < count; ++i)
 			{
 				double range = boundsMax.m_values[i] - boundsMin.m_values[i];
-				if (glm::epsilonEqual(range, 0.0, glm::epsilon<double>()))
+				if (range == 0.0)
 					continue;
 
 				boundedValues.m_values[i] = (m_values[i] - boundsMin.m_values[i])/range;
@@ -1324,7 +1324,7 @@ bool VertexValue::toData(void* outData, ElementLayout layout, ElementType type,
 			for (unsigned int i = 0; i < count; ++i)
 			{
 				double range = boundsMax.m_values[i] - boundsMin.m_values[i];
-				if (glm::epsilonEqual(range, 0.0, glm::epsilon<double>()))
+				if (range == 0.0)
 					continue;
 
 				boundedValues.m_values[i] = (m_values[i] - boundsMin.m_values[i])/range;
-- 
2.43.0


From 2efd01a12d01362d6a5b22bfbc57417f0c8111e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 17/28] fix: look up names that contain a null character as a
 whole

Finding by std::string only used the part before the null character, so the same name could be added
to a vertex format twice, and different names were considered the same.
---
 lib/include/VFC/VertexFormat.h | 5 +----
 lib/src/VertexFormat.cpp       | 6 ++++++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/include/VFC/VertexFormat.h b/lib/include/VFC/VertexFormat.h
index b573255..36cce8c 100644
--- a/lib/include/VFC/VertexFormat.h
+++ b/lib/include/VFC/VertexFormat.h
@@ -346,10 +346,7 @@ public:
 	const_iterator find(const char* name) const;
 
 	/** @copydoc find() */
-	const_iterator find(const std::string& name) const
-	{
-		return find(name.c_str());
-	}
+	const_iterator find(const std::string& name) const;
 
 	/**
 	 * @brief Checks if this vertex format contains the same elements as another format.
diff --git a/lib/src/VertexFormat.cpp b/lib/src/VertexFormat.cpp
index f8492fb..81900ab 100644
--- a/lib/src/VertexFormat.cpp
+++ b/lib/src/VertexFormat.cpp
@@ -418,6 +418,12 @@ VertexFormat::const_iterator VertexFormat::find(const char* name) const
 		[name](const VertexElement& element) {return element.name == name;});
 }
 
+VertexFormat::const_iterator VertexFormat::find(const std::string& name) const
+{
+	return std::find_if(m_elements.begin(), m_elements.end(),
+		[&name](const VertexElement& element) {return element.name == name;});
+}
+
 bool VertexFormat::containsElements(const VertexFormat& other) const
 {
 	for (const VertexElement& element : other)
-- 
2.43.0


From 33540c38c9e11b61906bb4645b00416bdc7beaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:48 +0000
Subject: [PATCH 18/28] fix: use the whole name when looking up elements of a
 converter

The overloads that take std::string only used the part before a null character, accessing the wrong
element or none.
---
 lib/include/VFC/Converter.h | 30 +++++++++++++++---------------
 lib/src/Converter.cpp       |  6 +++---
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/lib/include/VFC/Converter.h b/lib/include/VFC/Converter.h
index 8e164ae..490ec75 100644
--- a/lib/include/VFC/Converter.h
+++ b/lib/include/VFC/Converter.h
@@ -228,17 +228,17 @@ public:
 	 * @param name The name of the element.
 	 * @return The transform.
 	 */
-	Transform getElementTransform(const char* name) const;
+	Transform getElementTransform(const char* name) const
+	{
+		return getElementTransform(std::string(name));
+	}
 
 	/**
 	 * @brief Gets the transform for a vertex element by name.
 	 * @param name The name of the element.
 	 * @return The transform.
 	 */
-	Transform getElementTransform(const std::string& name) const
-	{
-		return getElementTransform(name.c_str());
-	}
+	Transform getElementTransform(const std::string& name) const;
 
 	/**
 	 * @brief Sets the transform for a vertex element by index.
@@ -259,7 +259,10 @@ public:
 	 * @param transform The transform to set.
 	 * @return False if the element wasn't found.
 	 */
-	bool setElementTransform(const char* name, Transform transform);
+	bool setElementTransform(const char* name, Transform transform)
+	{
+		return setElementTransform(std::string(name), transform);
+	}
 
 	/**
 	 * @brief Sets the transform for a vertex element by name.
@@ -267,10 +270,7 @@ public:
 	 * @param transform The transform to set.
 	 * @return False if the element wasn't found.
 	 */
-	bool setElementTransform(const std::string& name, Transform transform)
-	{
-		return setElementTransform(name.c_str(), transform);
-	}
+	bool setElementTransform(const std::string& name, Transform transform);
 
 	/**
 	 * @brief Adds a vertex stream to convert without indices.
@@ -347,7 +347,10 @@ public:
 	 * @param name The name of the vertex element.
 	 * @return False if the element wasn't found.
 	 */
-	bool getVertexElementBounds(VertexValue& outMin, VertexValue& outMax, const char* name) const;
+	bool getVertexElementBounds(VertexValue& outMin, VertexValue& outMax, const char* name) const
+	{
+		return getVertexElementBounds(outMin, outMax, std::string(name));
+	}
 
 	/**
 	 * @brief Gets the bounds for a vertex element.
@@ -360,10 +363,7 @@ public:
 	 * @return False if the element wasn't found.
 	 */
 	bool getVertexElementBounds(VertexValue& outMin, VertexValue& outMax,
-		const std::string& name) const
-	{
-		return getVertexElementBounds(outMin, outMax, name.c_str());
-	}
+		const std::string& name) const;
 
 	/**
 	 * @brief Gets the converted vertices.
diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index e36c32c..4c2f315 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -580,7 +580,7 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 	return true;
 }
 
-Converter::Transform Converter::getElementTransform(const char* name) const
+Converter::Transform Converter::getElementTransform(const std::string& name) const
 {
 	for (std::size_t i = 0; i < m_vertexFormat.size(); ++i)
 	{
@@ -593,7 +593,7 @@ Converter::Transform Converter::getElementTransform(const char* name) const
 	return Transform::Identity;
 }
 
-bool Converter::setElementTransform(const char* name, Transform transform)
+bool Converter::setElementTransform(const std::string& name, Transform transform)
 {
 	for (std::size_t i = 0; i < m_vertexFormat.size(); ++i)
 	{
@@ -842,7 +842,7 @@ bool Converter::convert()
 }
 
 bool Converter::getVertexElementBounds(VertexValue& outMin, VertexValue& outMax,
-	const char* name) const
+	const std::string& name) const
 {
 	for (std::size_t i = 0; i < m_vertexFormat.size(); ++i)
 	{
-- 
2.43.0


From e84b260312aecdbbaca89b8b5f376cdabb730c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 19/28] fix: reject strings of the input with an embedded null
 character

They were cut off at the null character: different names became the same, and unknown names or
invalid base64 data were accepted.
---
 tool/ConfigFile.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index 8ffc0da..a86b9d7 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -112,6 +112,12 @@ static std::string errorMessageStart(const char* json, const char* fileName,
 	return message;
 }
 
+static bool isString(const rapidjson::Value& value)
+{
+	// Strings are used as C strings, so would be cut off at an embedded null character.
+	return value.IsString() && strlen(value.GetString()) == value.GetStringLength();
+}
+
 static vfc::VertexFormat readVertexFormat(const rapidjson::Value& value, const char* fileName,
 	const vfc::Converter::ErrorFunction& errorFunction, bool inner = false)
 {
@@ -139,7 +145,7 @@ static vfc::VertexFormat readVertexFormat(const rapidjson::Value& value, const c
 		}
 
 		auto nameIt = it->FindMember("name");
-		if (nameIt == it->MemberEnd() || !nameIt->value.IsString())
+		if (nameIt == it->MemberEnd() || !isString(nameIt->value))
 		{
 			std::string message = fileName;
 			message += ": error: Vertex format element must contain 'name' string member.";
@@ -149,7 +155,7 @@ static vfc::VertexFormat readVertexFormat(const rapidjson::Value& value, const c
 		}
 
 		auto layoutIt = it->FindMember("layout");
-		if (layoutIt == it->MemberEnd() || !layoutIt->value.IsString())
+		if (layoutIt == it->MemberEnd() || !isString(layoutIt->value))
 		{
 			std::string message = fileName;
 			message += ": error: Vertex format element must contain 'layout' string member.";
@@ -171,7 +177,7 @@ static vfc::VertexFormat readVertexFormat(const rapidjson::Value& value, const c
 		}
 
 		auto typeIt = it->FindMember("type");
-		if (typeIt == it->MemberEnd() || !typeIt->value.IsString())
+		if (typeIt == it->MemberEnd() || !isString(typeIt->value))
 		{
 			std::string message = fileName;
 			message += ": error: Vertex format element must contain 'type' string member.";
@@ -294,7 +300,7 @@ static bool readIndexType(vfc::IndexType& outIndexType, const rapidjson::Value&
 		return true;
 	}
 
-	if (!indexTypeIt->value.IsString())
+	if (!isString(indexTypeIt->value))
 	{
 		std::string message = fileName;
 		message += ": error: Index type must be a string.";
@@ -336,7 +342,7 @@ static bool readPrimitiveType(vfc::PrimitiveType& outPrimitiveType, std::uint32_
 		return true;
 	}
 
-	if (!primitiveTypeIt->value.IsString())
+	if (!isString(primitiveTypeIt->value))
 	{
 		std::string message = fileName;
 		message += ": error: Primitive type must be a string.";
@@ -426,7 +432,7 @@ static std::vector<ConfigFile::VertexStream> readVertexStreams(const rapidjson::
 		}
 
 		auto vertexDataIt = it->FindMember("vertexData");
-		if (vertexDataIt == it->MemberEnd() || !vertexDataIt->value.IsString())
+		if (vertexDataIt == it->MemberEnd() || !isString(vertexDataIt->value))
 		{
 			std::string message = fileName;
 			message += ": error: Vertex stream element must contain 'vertexData' string member.";
@@ -446,7 +452,7 @@ static std::vector<ConfigFile::VertexStream> readVertexStreams(const rapidjson::
 		if (stream.indexType != vfc::IndexType::NoIndices)
 		{
 			auto indexDataIt = it->FindMember("indexData");
-			if (indexDataIt == it->MemberEnd() || !indexDataIt->value.IsString())
+			if (indexDataIt == it->MemberEnd() || !isString(indexDataIt->value))
 			{
 				std::string message = fileName;
 				message += ": error: Vertex stream element must contain 'indexData' string member.";
@@ -493,7 +499,7 @@ static bool readVertexTransforms(
 		}
 
 		auto nameIt = it->FindMember("name");
-		if (nameIt == it->MemberEnd() || !nameIt->value.IsString())
+		if (nameIt == it->MemberEnd() || !isString(nameIt->value))
 		{
 			std::string message = fileName;
 			message += ": error: Vertex transform element must contain 'name' string member.";
@@ -502,7 +508,7 @@ static bool readVertexTransforms(
 		}
 
 		auto transformIt = it->FindMember("transform");
-		if (transformIt == it->MemberEnd() || !transformIt->value.IsString())
+		if (transformIt == it->MemberEnd() || !isString(transformIt->value))
 		{
 			std::string message = fileName;
 			message += ": error: Vertex transform element must contain 'transform' string member.";
-- 
2.43.0


From e253fde1102926af574aa3f5b3b943b024c9e226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:01 +0000
Subject: [PATCH 20/28] fix: reject an input file with anything after a null
 character

The file was only parsed up to the null character, so garbage after it was ignored.
---
 tool/ConfigFile.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index a86b9d7..40673f4 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -579,6 +579,16 @@ bool ConfigFile::load(std::istream& stream, const char* fileName,
 		return false;
 	}
 
+	// Parsing stops at a null character, which would ignore what comes after.
+	std::size_t nullOffset = json.find('\0');
+	if (nullOffset != std::string::npos)
+	{
+		std::string message = errorMessageStart(json.c_str(), fileName, nullOffset);
+		message += "Unexpected null character.";
+		errorFunction(message.c_str());
+		return false;
+	}
+
 	return load(json.c_str(), fileName, errorFunction);
 }
 
-- 
2.43.0


From 6062aac189ba7bbf30e7270c3461cf28a1e97a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:05 +0000
Subject: [PATCH 21/28] fix: a vertex format that was moved from kept its
 stride

Elements appended to it afterwards got the wrong offsets.
---
 lib/include/VFC/VertexFormat.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/lib/include/VFC/VertexFormat.h b/lib/include/VFC/VertexFormat.h
index 36cce8c..8a1e1db 100644
--- a/lib/include/VFC/VertexFormat.h
+++ b/lib/include/VFC/VertexFormat.h
@@ -21,6 +21,7 @@
 #include <cassert>
 #include <cstdint>
 #include <string>
+#include <utility>
 #include <vector>
 
 /**
@@ -320,6 +321,26 @@ public:
 	{
 	}
 
+	VertexFormat(const VertexFormat&) = default;
+	VertexFormat& operator=(const VertexFormat&) = default;
+
+	VertexFormat(VertexFormat&& other) noexcept
+		: m_elements(std::move(other.m_elements)), m_stride(other.m_stride)
+	{
+		other.clear();
+	}
+
+	VertexFormat& operator=(VertexFormat&& other) noexcept
+	{
+		if (this != &other)
+		{
+			m_elements = std::move(other.m_elements);
+			m_stride = other.m_stride;
+			other.clear();
+		}
+		return *this;
+	}
+
 	/**
 	 * @brief Appends an element to the vertex format.
 	 * @param name The name of the element. This must be unique.
-- 
2.43.0


From f7aa576053ce3daa87a98ea4ca95df9a9c2486bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 22/28] fix: report more vertices or indices than can be
 counted

The counts were cut off to 32 bits, silently converting only a part of the data.
---
 tool/main.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index 6ab5343..9174a14 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -25,6 +25,7 @@
 #include <cstring>
 #include <fstream>
 #include <iostream>
+#include <limits>
 
 #include <errno.h>
 #include <sys/stat.h>
@@ -239,11 +240,19 @@ bool setupConverter(vfc::Converter& converter, const ConfigFile& configFile,
 			}
 		}
 
-		auto vertexCount =
-			static_cast<std::uint32_t>(vertexData.size()/vertexStream.vertexFormat.stride());
-		auto indexCount = static_cast<std::uint32_t>(indexData.size()/indexSize);
-		if (!converter.addVertexStream(vertexStream.vertexFormat, vertexData.data(), vertexCount,
-				vertexStream.indexType, indexData.data(), indexCount))
+		std::size_t vertexCount = vertexData.size()/vertexStream.vertexFormat.stride();
+		std::size_t indexCount = indexData.size()/indexSize;
+		if (vertexCount > std::numeric_limits<std::uint32_t>::max() ||
+			indexCount > std::numeric_limits<std::uint32_t>::max())
+		{
+			std::fprintf(stderr, "%s: error: Too many vertices or indices.\n",
+				configFilePath.c_str());
+			return false;
+		}
+
+		if (!converter.addVertexStream(vertexStream.vertexFormat, vertexData.data(),
+				static_cast<std::uint32_t>(vertexCount), vertexStream.indexType, indexData.data(),
+				static_cast<std::uint32_t>(indexCount)))
 		{
 			return false;
 		}
-- 
2.43.0


From ce093ff636e38e8efe52d56b16dbcde411cbcc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:56 +0000
Subject: [PATCH 23/28] fix: a conversion that failed left its values in the
 bounds of the next

---
 lib/src/Converter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 4c2f315..688cd22 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -659,6 +659,9 @@ bool Converter::convert()
 			const VertexStream& stream = m_vertexStreams[elementRef.streamIndex];
 			assert(elementRef.element);
 			const VertexElement& element = *elementRef.element;
+			// Don't keep what a previous call that failed gathered.
+			elementRef.minVal = VertexValue::initialBoundsMin;
+			elementRef.maxVal = VertexValue::initialBoundsMax;
 			std::uint32_t primitiveRestart = primitiveRestartIndexValue(stream.indexType);
 			for (std::uint32_t i = 0; i < m_indexCount; ++i)
 			{
-- 
2.43.0


From f14c5d0b53ff53a32992ec690760ff25878e72cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:13 +0000
Subject: [PATCH 24/28] fix: crash when embedding more than 512 MB of data in
 the result

---
 tool/ResultFile.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/tool/ResultFile.cpp b/tool/ResultFile.cpp
index a9d56bb..d9979f0 100644
--- a/tool/ResultFile.cpp
+++ b/tool/ResultFile.cpp
@@ -19,6 +19,24 @@
 #include <rapidjson/prettywriter.h>
 #include <cassert>
 #include <cmath>
+#include <utility>
+
+// The size rapidjson::StringBuffer would be told to reserve for a long string overflows.
+struct StringStream
+{
+	using Ch = char;
+
+	void Put(char c)
+	{
+		string.push_back(c);
+	}
+
+	void Flush()
+	{
+	}
+
+	std::string string;
+};
 
 // JSON can't represent infinity and NaN.
 static rapidjson::Value boundsValue(double value)
@@ -116,8 +134,8 @@ std::string resultFile(const std::vector<vfc::VertexFormat>& vertexFormat,
 		document.AddMember("indexBuffers", indexDataArray, document.GetAllocator());
 	}
 
-	rapidjson::StringBuffer buffer;
-	rapidjson::PrettyWriter<rapidjson::StringBuffer> writer(buffer);
+	StringStream stream;
+	rapidjson::PrettyWriter<StringStream> writer(stream);
 	document.Accept(writer);
-	return buffer.GetString();
+	return std::move(stream.string);
 }
-- 
2.43.0


From b5f3f48bd0b837d1918e7b3febe79cb2f521e9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:10 +0000
Subject: [PATCH 25/28] fix: failure to print a result of more than 2 GB

---
 tool/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index 9174a14..ec6f1e3 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -458,7 +458,9 @@ int main(int argc, const char** argv)
 	if (result.empty())
 		return 1;
 
-	if (std::printf("%s\n", result.c_str()) < 0 || std::fflush(stdout) != 0)
+	// printf() can't output more than 2 GB.
+	if (std::fwrite(result.data(), 1, result.size(), stdout) != result.size() ||
+		std::putchar('\n') == EOF || std::fflush(stdout) != 0)
 	{
 		std::fprintf(stderr, "error: Couldn't write result.\n");
 		return 1;
-- 
2.43.0


From c4559372269f177a8b12cb35e76cdc8bcd4a6eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:30 +0000
Subject: [PATCH 26/28] fix: report data that's too large to embed rather than
 truncating it

---
 tool/main.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tool/main.cpp b/tool/main.cpp
index ec6f1e3..37ac861 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -299,6 +299,11 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 		{
 			std::string curData = "base64:";
 			curData.append(base64::encode(curVertices.data(), curVertices.size()));
+			if (curData.size() > std::numeric_limits<std::uint32_t>::max())
+			{
+				std::fprintf(stderr, "error: Vertex data is too large to embed in the result.\n");
+				return "";
+			}
 			vertexData.push_back(std::move(curData));
 		}
 	}
@@ -345,6 +350,11 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 				static_cast<std::size_t>(indexData.count)*vfc::indexSize(indexData.type);
 			std::string encodedData = "base64:";
 			encodedData.append(base64::encode(indexData.data, indexSize));
+			if (encodedData.size() > std::numeric_limits<std::uint32_t>::max())
+			{
+				std::fprintf(stderr, "error: Index data is too large to embed in the result.\n");
+				return "";
+			}
 			indexStrings.push_back(std::move(encodedData));
 			indexFileData.push_back(
 				IndexFileData{indexData.count, indexData.baseVertex, indexStrings.back().c_str()});
-- 
2.43.0


From 60ea426e1ed025a2f3e1dcae105eb5ada15c214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:30 +0000
Subject: [PATCH 27/28] fix: reject a config file that's too large rather than
 crash

---
 tool/ConfigFile.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index 40673f4..d3b1802 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -17,7 +17,9 @@
 #include "ConfigFile.h"
 #include <rapidjson/document.h>
 #include <cassert>
+#include <cstring>
 #include <fstream>
+#include <limits>
 
 #include <string.h>
 
@@ -596,6 +598,15 @@ bool ConfigFile::load(const char* json, const char* fileName,
 	const vfc::Converter::ErrorFunction& errorFunction)
 {
 	assert(errorFunction);
+	// Longer strings overflow when parsing.
+	if (std::strlen(json) > std::numeric_limits<rapidjson::SizeType>::max())
+	{
+		std::string message = fileName;
+		message += ": error: Config file is too large.";
+		errorFunction(message.c_str());
+		return false;
+	}
+
 	rapidjson::Document document;
 	if (document.Parse<rapidjson::kParseIterativeFlag>(json).HasParseError())
 	{
-- 
2.43.0


From df015fba86db7bc1a6652a8f6f79ff4dacc0e598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:16 +0000
Subject: [PATCH 28/28] fix: report a failure to print the help

---
 tool/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tool/main.cpp b/tool/main.cpp
index 37ac861..3dd47fe 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -397,6 +397,11 @@ int main(int argc, const char** argv)
 		if (std::strcmp(argv[i], "-h") == 0 || std::strcmp(argv[i], "--help") == 0)
 		{
 			printHelp(argv[0]);
+			if (std::fflush(stdout) != 0 || std::ferror(stdout))
+			{
+				std::fprintf(stderr, "error: Couldn't write help.\n");
+				return 1;
+			}
 			return 0;
 		}
 		else if (std::strcmp(argv[i], "-i") == 0 || std::strcmp(argv[i], "--input") == 0)
-- 
2.43.0

