From 37eeace390dd2a78af142ec949116ab2c4b4210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:51 +0000
Subject: [PATCH 01/47] fix: in-situ ghost push aborted on ranks with nothing
 to unpack and when cleared after waiting

---
 src/DNDS/ArrayTransformer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index b5fe64e..c71fbae 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -813,14 +813,14 @@ namespace DNDS
                 if (!PushReqVec->empty())
                     MPI::WaitallAuto(PushReqVec->size(), PushReqVec->data(), PushStatVec.data());
                 auto bufferVec = inSituBuffer.begin();
-                for (MPI_int r = 0; r < mpi.size; r++)
+                for (MPI_int r = 0; r < mpi.size && !inSituBuffer.empty(); r++) // no buffer: nothing in flight (e.g. already waited)
                 {
                     // push
-                    DNDS_assert(bufferVec < inSituBuffer.end());
                     MPI_int pushNumber = pLGhostMapping->pushIndexSizes[r];
                     // std::cout << "PN" << pushNumber << std::endl;
                     if (pushNumber > 0)
                     {
+                        DNDS_assert(bufferVec < inSituBuffer.end());
                         index nPushData = 0;
                         for (index i = 0; i < pushNumber; i++)
                         {
-- 
2.43.0


From a914bdad2e12912e1a4e151d9498d18c5932277d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:07 +0000
Subject: [PATCH 02/47] fix: in-situ packing of max-row-size arrays packed row
 sizes while the ghost side exchanges full rows

---
 src/DNDS/ArrayTransformer.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index c71fbae..02a872a 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -624,8 +624,8 @@ namespace DNDS
                         index nPush = 0;
                         if constexpr (_dataLayout == CSR)
                             nPush = father->RowSizeField(loc);
-                        if constexpr (isTABLE_Max(_dataLayout)) //! init sizes
-                            nPush = father->RowSize(loc);
+                        if constexpr (isTABLE_Max(_dataLayout)) //! full row, as in the pulled span
+                            nPush = father->RowSizeField();
                         if constexpr (isTABLE_Fixed(_dataLayout))
                             nPush = father->RowSizeField();
                         nPushData += nPush;
@@ -720,8 +720,8 @@ namespace DNDS
                         index nPush = 0;
                         if constexpr (_dataLayout == CSR)
                             nPush = father->RowSizeField(loc);
-                        if constexpr (isTABLE_Max(_dataLayout)) //! init sizes
-                            nPush = father->RowSize(loc);
+                        if constexpr (isTABLE_Max(_dataLayout)) //! full row, as in the pulled span
+                            nPush = father->RowSizeField();
                         if constexpr (isTABLE_Fixed(_dataLayout))
                             nPush = father->RowSizeField();
                         nPushData += nPush;
@@ -734,8 +734,8 @@ namespace DNDS
                         index nPush = 0;
                         if constexpr (_dataLayout == CSR)
                             nPush = father->RowSizeField(loc);
-                        if constexpr (isTABLE_Max(_dataLayout)) //! init sizes
-                            nPush = father->RowSize(loc);
+                        if constexpr (isTABLE_Max(_dataLayout)) //! full row, as in the pulled span
+                            nPush = father->RowSizeField();
                         if constexpr (isTABLE_Fixed(_dataLayout))
                             nPush = father->RowSizeField();
                         std::copy((*father)[loc], (*father)[loc] + nPush, inSituBuffer.back().begin() + nPushData);
@@ -828,8 +828,8 @@ namespace DNDS
                             index nPush = 0;
                             if constexpr (_dataLayout == CSR)
                                 nPush = father->RowSizeField(loc);
-                            if constexpr (isTABLE_Max(_dataLayout)) //! init sizes
-                                nPush = father->RowSize(loc);
+                            if constexpr (isTABLE_Max(_dataLayout)) //! full row, as in the pulled span
+                                nPush = father->RowSizeField();
                             if constexpr (isTABLE_Fixed(_dataLayout))
                                 nPush = father->RowSizeField();
                             std::copy(bufferVec->begin() + nPushData, bufferVec->begin() + nPushData + nPush, (*father)[loc]);
-- 
2.43.0


From 781d681ee3f1cff4ea6f3d59aea22e01979e07f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:13 +0000
Subject: [PATCH 03/47] fix: in-situ ghost exchange deadlocked when every
 exchanged CSR row is empty

---
 src/DNDS/ArrayTransformer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index 02a872a..83f5c26 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -647,7 +647,7 @@ namespace DNDS
                 auto ghostSpan = gRPtr - gLPtr;
                 pullSize = MPI_int(ghostSpan);
 
-                if (pullSize > 0)
+                if (pLGhostMapping->ghostSizes[r] > 0) // matches pushNumber > 0 on the other side, even if all rows are empty
                 {
                     PushReqVec->emplace_back(MPI_REQUEST_NULL);
                     MPI_Issend(gLPtr, pullSize * father->getTypeMult(), father->getDataType(), r, r + mpi.rank, mpi.comm, &PushReqVec->back());
@@ -699,7 +699,7 @@ namespace DNDS
                 auto ghostSpan = gRPtr - gLPtr;
                 pullSize = MPI_int(ghostSpan);
 
-                if (pullSize > 0)
+                if (pLGhostMapping->ghostSizes[r] > 0) // matches pushNumber > 0 on the other side, even if all rows are empty
                 {
                     PullReqVec->emplace_back(MPI_REQUEST_NULL);
                     MPI_Irecv(gLPtr, pullSize * father->getTypeMult(), father->getDataType(), r, r + mpi.rank, mpi.comm, &PullReqVec->back());
-- 
2.43.0


From fa3d76f86232edf45506b5b492a20de8b07f8b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:35 +0000
Subject: [PATCH 04/47] fix: one-by-one push started its sends as if they were
 the receives and deadlocked

The waiting code starts and waits the first nRecvPushReq requests as the
receives, so they have to come first in PushReqVec (as they do for pull).
---
 src/DNDS/ArrayTransformer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index 83f5c26..411ecee 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -495,7 +495,7 @@ namespace DNDS
                     auto dtypeInfo = (*pPushTypeVec)[ip];
                     MPI_int rankOther = dtypeInfo.first;
                     MPI_int tag = rankOther + mpi.rank;
-                    MPI_Recv_init(father->data(), 1, dtypeInfo.second, rankOther, tag, mpi.comm, PushReqVec->data() + pPullTypeVec->size() + ip);
+                    MPI_Recv_init(father->data(), 1, dtypeInfo.second, rankOther, tag, mpi.comm, PushReqVec->data() + ip);
                     // cascade from father
                     nRecvPushReq++;
                 }
@@ -511,7 +511,7 @@ namespace DNDS
 #else
                     MPI_Bsend_init
 #endif
-                        (son->data(), 1, dtypeInfo.second, rankOther, tag, mpi.comm, PushReqVec->data() + ip);
+                        (son->data(), 1, dtypeInfo.second, rankOther, tag, mpi.comm, PushReqVec->data() + pPushTypeVec->size() + ip);
 
                     // cascade from father
 
-- 
2.43.0


From 0ddbcc51468260f0e34032cc4637fdd06470cdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 05/47] fix: Array::Resize kept old row sizes of max-layout
 arrays unless a copy existed

The documented behaviour (reset to 0) only happened when the row sizes were shared.
---
 src/DNDS/Array.hpp | 1626 ++++++++++++++++++++++----------------------
 1 file changed, 813 insertions(+), 813 deletions(-)

diff --git a/src/DNDS/Array.hpp b/src/DNDS/Array.hpp
index 33a4f75..06d0328 100644
--- a/src/DNDS/Array.hpp
+++ b/src/DNDS/Array.hpp
@@ -1,813 +1,813 @@
-#pragma once
-#ifndef DNDS_ARRAY_HPP
-#define DNDS_ARRAY_HPP
-
-#include <vector>
-#include <iostream>
-#include <typeinfo>
-#include <utility>
-
-#include <fmt/core.h>
-
-#include "Defines.hpp"
-#include "SerializerBase.hpp"
-#include "SerializerJSON.hpp"
-
-namespace DNDS
-{
-    static const rowsize NoAlign = -1;
-
-    enum DataLayout
-    {
-        ErrorLayout,
-        TABLE_StaticFixed,
-        TABLE_Fixed,
-        TABLE_Max,
-        TABLE_StaticMax,
-        CSR,
-    };
-
-    inline constexpr bool isTABLE(DataLayout lo)
-    {
-        return lo == TABLE_StaticFixed || lo == TABLE_Fixed || lo == TABLE_Max || lo == TABLE_StaticMax;
-    }
-    inline constexpr bool isTABLE_Fixed(DataLayout lo)
-    {
-        return lo == TABLE_StaticFixed || lo == TABLE_Fixed;
-    }
-    inline constexpr bool isTABLE_Max(DataLayout lo)
-    {
-        return lo == TABLE_Max || lo == TABLE_StaticMax;
-    }
-    inline constexpr bool isTABLE_Static(DataLayout lo)
-    {
-        return lo == TABLE_StaticFixed || lo == TABLE_StaticMax;
-    }
-    inline constexpr bool isTABLE_Dynamic(DataLayout lo)
-    {
-        return lo == TABLE_Fixed || lo == TABLE_Max;
-    }
-
-    template <class T>
-    inline constexpr bool array_comp_acceptable()
-    {
-        return std::is_trivially_copyable_v<T> || Meta::is_fixed_data_real_eigen_matrix_v<T>;
-    }
-
-    /**
-     * @brief 2D var-len data container template
-     * @details
-     * ## Array's types
-     * |                         | _row_size>=0                         | _row_size==DynamicSize              | _row_size==NonUniformSize |
-     * | ---                     |          ---                         |                    ---              |                       --- |
-     * |_row_max>=0              |  TABLE_StaticFixed                   |  TABLE_Fixed                        |   TABLE_StaticMax         |
-     * |_row_max==DynamicSize    |  TABLE_StaticFixed _row_max ignored  |  TABLE_Fixed  _row_max ignored      |   TABLE_Max               |
-     * |_row_max==NonUniformSize |  TABLE_StaticFixed _row_max ignored  |  TABLE_Fixed  _row_max ignored      |   CSR                     |
-     *
-     * @todo //TODO implement align feature
-     *
-     *
-     * @tparam T
-     * @tparam _row_size
-     * @tparam _row_max
-     * @tparam _align
-     */
-    template <class T, rowsize _row_size = 1, rowsize _row_max = _row_size, rowsize _align = NoAlign>
-    class Array
-    {
-    public:
-        using value_type = T;
-        using self_type = Array<T, _row_size, _row_max, _align>;
-        static const rowsize al = _align;
-        static const rowsize rs = _row_size;
-        static const rowsize rm = _row_max;
-        static const unsigned sizeof_T = sizeof(value_type);
-
-        static_assert(sizeof_T <= (1024ULL * 1024ULL * 1024ULL), "Row size larger than 1G");
-        static_assert(array_comp_acceptable<T>(), "Do not put in a non trivially copyable type ");
-
-        static_assert(al == NoAlign || al >= 1, "Align bad");
-
-        static const rowsize s_T = al == NoAlign ? sizeof_T : (sizeof_T / al + 1) * al;
-        static_assert(s_T >= sizeof_T && s_T - sizeof_T < (al == NoAlign ? 1 : al), "I1");
-
-        static constexpr DataLayout _GetDataLayout()
-        {
-            if constexpr (rs != DynamicSize && rs != NonUniformSize && rs >= 0)
-                return TABLE_StaticFixed;
-            else if constexpr (rs == DynamicSize)
-                return TABLE_Fixed;
-            else if constexpr (rs == NonUniformSize)
-            {
-                if constexpr (rm == NonUniformSize)
-                    return CSR;
-                else if constexpr (rm == DynamicSize)
-                    return TABLE_Max;
-                else if constexpr (rm >= 0)
-                    return TABLE_StaticMax;
-                else
-                    return ErrorLayout;
-            }
-            else
-                return ErrorLayout;
-        }
-        static const DataLayout _dataLayout = _GetDataLayout();
-        static_assert(_dataLayout != ErrorLayout, "Layout Error");
-        static const bool isCSR = _dataLayout == CSR;
-
-    public:
-        //* compressed data
-        using t_Data = std::vector<value_type>;
-        //* uncompressed data (only for CSR)
-        using t_DataUncompressed = std::vector<std::vector<value_type>>;
-
-        //* non uniform data: CSR
-        using t_RowStart = std::vector<index>;
-        using t_pRowStart = ssp<t_RowStart>;
-
-        //* non uniform-with max data: TABLE
-        using t_RowSizes = std::vector<rowsize>;
-        using t_pRowSizes = ssp<t_RowSizes>;
-
-    private:
-        t_pRowStart _pRowStart; // CSR   in number of T
-        t_pRowSizes _pRowSizes; // TABLE in number of T
-        t_Data _data;
-        t_DataUncompressed _dataUncompressed;
-
-        index _size = 0;               // in number of T
-        rowsize _row_size_dynamic = 0; // in number of T
-    public:
-        t_pRowStart getRowStart() { return _pRowStart; }
-        t_pRowSizes getRowSizes() { return _pRowSizes; }
-
-    public:
-        // default constructor using default:
-        Array() = default;
-        // copy constructor using default;
-        Array(const self_type &R) = default;
-
-        // TODO: constructors
-        // TODO: A indexer-copying build method:
-        // TODO: for CSR: c->c, u->u
-        // TODO: for intertype: CSR->Max, Max->CSR ...
-
-        // read size
-        [[nodiscard]] index Size() const { return _size; }
-
-        [[nodiscard]] rowsize RowSize() const // iRow is actually dummy here
-        {
-            if constexpr (_dataLayout == TABLE_Fixed)
-                return _row_size_dynamic;
-            else if constexpr (_dataLayout == TABLE_StaticFixed)
-                return rs;
-            else
-            {
-                DNDS_assert_info(false, "invalid call");
-                return -1;
-            }
-        }
-
-        [[nodiscard]] rowsize RowSize(index iRow) const
-        {
-            if constexpr (_dataLayout == TABLE_Fixed)
-                return _row_size_dynamic;
-            else if constexpr (_dataLayout == TABLE_StaticFixed)
-                return rs;
-            DNDS_assert_info(iRow < _size && iRow >= 0, "query position out of range");
-            if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax) // TABLE with Max
-            {
-                DNDS_assert_info(_pRowSizes, "_pRowSizes invalid"); // TABLE with Max must have a RowSizes
-                return _pRowSizes->at(iRow);
-            }
-            else if constexpr (_dataLayout == CSR)
-            {
-                if (IfCompressed())
-                {
-                    index pDiff = _pRowStart->at(iRow + 1) - _pRowStart->at(iRow);
-                    DNDS_assert(pDiff < INT32_MAX); // overflow
-                    return static_cast<rowsize>(pDiff);
-                }
-                else
-                {
-                    auto rs_cur = _dataUncompressed.at(iRow).size();
-                    return static_cast<rowsize>(rs_cur);
-                }
-            }
-        }
-
-        [[nodiscard]] rowsize RowSizeMax() const
-        {
-            if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax)
-                return _dataLayout == TABLE_Max ? _row_size_dynamic : rm;
-            else
-                DNDS_assert_info(false, "invalid call");
-        }
-
-        [[nodiscard]] rowsize RowSizeField() const
-        {
-            if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax)
-                return this->RowSizeMax();
-            else if constexpr (_dataLayout == TABLE_Fixed || _dataLayout == TABLE_StaticFixed)
-                return this->RowSize();
-            else
-                DNDS_assert_info(false, "invalid call");
-        }
-
-        [[nodiscard]] rowsize RowSizeField(index iRow)
-        {
-            if constexpr (_dataLayout == CSR)
-                return this->RowSize(iRow);
-            else
-                DNDS_assert_info(false, "invalid call");
-        }
-
-        [[nodiscard]] bool IfCompressed() const
-        {
-
-            if constexpr (_dataLayout == CSR)
-            {
-                if (_size > 0)
-                {
-                    return bool(_pRowStart);
-                }
-                return false; // size 0 array is defined as un-compressed
-            }
-            else
-            {
-                DNDS_assert_info(false, "invalid call");
-                return false;
-            }
-        }
-
-        void CSRDecompress()
-        {
-            if (!IfCompressed())
-                return;
-            _dataUncompressed.resize(_size);
-            for (index i = 0; i < _size; i++)
-            {
-                // _dataUncompressed[i].resize( - _pRowStart->at(i));
-                auto iterStart = _data.begin() + _pRowStart->at(i);
-                auto iterEnd = _data.begin() + _pRowStart->at(i + 1);
-                _dataUncompressed[i].assign(iterStart, iterEnd);
-            }
-            _data.clear();
-            _pRowStart.reset();
-        }
-
-        void CSRCompress()
-        {
-            if (IfCompressed())
-                return;
-            _pRowStart = std::make_shared<
-                typename decltype(_pRowStart)::element_type>(_size + 1, 0);
-            _pRowStart->at(0) = 0;
-            for (index i = 0; i < _size; i++)
-            {
-                index rsI = _pRowStart->at(i);
-                index rsIP = rsI + static_cast<index>(_dataUncompressed.at(i).size());
-                DNDS_assert(rsIP >= rsI);
-                _pRowStart->at(i + 1) = rsIP;
-            }
-            _data.resize(_pRowStart->at(_size));
-            for (index i = 0; i < _size; i++)
-            {
-                // // _dataUncompressed[i].resize( - _pRowStart->at(i));
-                // auto iterStart = _data.begin() + _pRowStart->at(i);
-                // auto iterEnd = _data.begin() + _pRowStart->at(i + 1);
-                // _dataUncompressed[i].assign(iterStart, iterEnd);
-                // _data.push_back(data)
-                memcpy(_data.data() + _pRowStart->at(i), _dataUncompressed[i].data(),
-                       sizeof(T) * _dataUncompressed[i].size());
-                DNDS_assert(_pRowStart->at(i) + _dataUncompressed[i].size() <= _data.size());
-                //! any better way?
-            }
-            _dataUncompressed.clear();
-        }
-
-        void Compress()
-        {
-            if constexpr (_dataLayout == CSR)
-                CSRCompress();
-        }
-        void Decompress()
-        {
-            if constexpr (_dataLayout == CSR)
-                CSRDecompress();
-        }
-
-        t_Data &RawDataVector()
-        {
-            if constexpr (_dataLayout == CSR)
-                DNDS_assert(IfCompressed());
-            return _data;
-        }
-
-        /**
-         * @brief resize invalidates all data and aux, and resets the sizes info to 0 for max
-         *
-         * @param nSize
-         * @param nRow_size_dynamic
-         * @return std::enable_if_t<
-         * _dataLayout == TABLE_Fixed ||
-         * _dataLayout == TABLE_StaticFixed ||
-         * _dataLayout == TABLE_Max ||
-         * _dataLayout == TABLE_StaticMax,
-         * void>
-         */
-        void Resize(index nSize, rowsize nRow_size_dynamic)
-        {
-            if constexpr (_dataLayout == CSR) // to un compressed
-            {
-                DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing");
-                _size = nSize;
-                // _dataUncompressed.resize(nSize, typename decltype(_dataUncompressed)::value_type(nRow_size_dynamic));
-                _dataUncompressed.resize(nSize);
-            }
-            else
-            {
-                _size = nSize;
-                if constexpr (_dataLayout == TABLE_Fixed || _dataLayout == TABLE_Max)
-                    _data.resize(nSize * nRow_size_dynamic), _row_size_dynamic = nRow_size_dynamic;
-                else if constexpr (_dataLayout == TABLE_StaticFixed)
-                    _data.resize(nSize * rs), DNDS_assert(nRow_size_dynamic == rs);
-                else if constexpr (_dataLayout == TABLE_StaticMax)
-                    _data.resize(nSize * rm), DNDS_assert(nRow_size_dynamic == rm);
-
-                if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax)
-                {
-                    if (_pRowSizes.use_count() == 1)
-                        _pRowSizes->resize(nSize, 0);
-                    else
-                        _pRowSizes = std::make_shared<
-                            typename decltype(_pRowSizes)::element_type>(nSize, 0);
-                }
-            }
-        }
-
-        void Resize(index nSize)
-        {
-            if constexpr (_dataLayout == CSR)
-            {
-                DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing");
-                _size = nSize;
-                _dataUncompressed.resize(nSize);
-            }
-            else if constexpr (_dataLayout == TABLE_StaticFixed)
-            {
-                _size = nSize;
-                _data.resize(nSize * rs);
-            }
-            else if constexpr (_dataLayout == TABLE_StaticMax)
-            {
-                _size = nSize;
-                _data.resize(nSize * rm);
-                if (_pRowSizes.use_count() == 1)
-                    _pRowSizes->resize(nSize, 0);
-                else
-                    _pRowSizes = std::make_shared<
-                        typename decltype(_pRowSizes)::element_type>(nSize, 0);
-            }
-            else
-            {
-                DNDS_assert_info(false, "invalid call");
-            }
-        }
-
-        template <class TFRowSize>
-        void Resize(index nSize, TFRowSize &&FRowSize)
-        {
-            if constexpr (_dataLayout == CSR)
-            {
-                _size = nSize;
-                _pRowSizes.reset(), _dataUncompressed.clear(); //*directly to compressed
-                _pRowStart = std::make_shared<typename decltype(_pRowStart)::element_type>(nSize + 1);
-                _pRowStart->operator[](0) = 0;
-                for (index i = 0; i < nSize; i++)
-                    (*_pRowStart)[i + 1] = (*_pRowStart)[i] + FRowSize(i);
-                _data.resize(_pRowStart->at(nSize));
-            }
-            static_assert(_dataLayout == CSR, "Only Non Uniform, CSR for now");
-            static_assert(std::is_invocable_r_v<rowsize, TFRowSize, index>, "Call invalid");
-        }
-
-        /**
-         * @brief resize one row
-         * valid only for non-uniform
-         *
-         * @param iRow
-         * @param nRowSize
-         */
-        void ResizeRow(index iRow, rowsize nRowSize)
-        {
-            if constexpr (_dataLayout == CSR)
-            {
-                DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing row");
-                DNDS_assert_info(iRow < _size && iRow >= 0, "query position out of range");
-                _dataUncompressed.at(iRow).resize(nRowSize);
-            }
-            else if constexpr (_dataLayout == TABLE_Max ||
-                               _dataLayout == TABLE_StaticMax)
-            {
-                DNDS_assert(nRowSize <= (_dataLayout == TABLE_Max ? _row_size_dynamic : rm)); //_row_size_dynamic is max now
-                DNDS_assert_info(iRow < _size && iRow >= 0, "query position out of range");
-                DNDS_assert_info(_pRowSizes, "_pRowSizes invalid");
-                if (_pRowSizes.use_count() > 1) // shared
-                    _pRowSizes = std::make_shared<
-                        typename decltype(_pRowSizes)::element_type>(*_pRowSizes); // copy the row sizes
-                _pRowSizes->at(iRow) = nRowSize;                                   // change
-            }
-            else
-            {
-                DNDS_assert_info(false, "invalid call");
-            }
-        }
-
-        void ReserveRow(index iRow, rowsize nRowSize)
-        {
-            if constexpr (_dataLayout == CSR)
-            {
-                DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing row");
-                DNDS_assert_info(iRow < _size && iRow >= 0, "query position out of range");
-                _dataUncompressed.at(iRow).reserve(nRowSize);
-            }
-            else
-            {
-                DNDS_assert_info(false, "invalid call");
-            }
-        }
-
-        // TODO: Data reference query method and pointer query method
-        // TODO: ? same-size compress for non-uniforms
-
-        const T &at(index iRow, rowsize iCol) const
-        {
-            DNDS_assert_info(iRow < _size && iRow >= 0,
-                             fmt::format(
-                                 "query position i[{}] out of range [0, {}), sig--{}",
-                                 iRow, _size, GetArraySignature()));
-            DNDS_assert_info(iCol < RowSize(iRow) && iCol >= 0,
-                             fmt::format(
-                                 "query position j[{}] out of range [0, {}), sig--{}",
-                                 iCol, RowSize(iRow), GetArraySignature()));
-            if constexpr (_dataLayout == TABLE_StaticFixed)
-                return _data.at(iRow * rs + iCol);
-            else if constexpr (_dataLayout == TABLE_StaticMax)
-                return _data.at(iRow * rm + iCol);
-            else if constexpr (_dataLayout == TABLE_Fixed)
-                return _data.at(iRow * _row_size_dynamic + iCol);
-            else if constexpr (_dataLayout == TABLE_Max)
-                return _data.at(iRow * _row_size_dynamic + iCol);
-            else if constexpr (_dataLayout == CSR)
-            {
-                if (IfCompressed())
-                    return _data.at(_pRowStart->at(iRow) + iCol);
-                else
-                    return _dataUncompressed.at(iRow).at(iCol);
-            }
-            else
-            {
-                DNDS_assert_info(false, "invalid call");
-            }
-        }
-
-        T &operator()(index iRow, rowsize iCol)
-        {
-            return const_cast<T &>(at(iRow, iCol));
-        }
-
-        const T &operator()(index iRow, rowsize iCol) const
-        {
-            return at(iRow, iCol);
-        }
-
-        /**
-         * @brief iRow could be past-the-end to query past-the-end position pointer
-         *
-         * @param iRow
-         * @return T*
-         */
-        T *operator[](index iRow)
-        {
-            DNDS_assert_info(iRow <= _size && iRow >= 0, "query position i out of range");
-            if constexpr (_dataLayout == TABLE_StaticFixed)
-                return _data.data() + iRow * rs;
-            else if constexpr (_dataLayout == TABLE_StaticMax)
-                return _data.data() + iRow * rm;
-            else if constexpr (_dataLayout == TABLE_Fixed)
-                return _data.data() + iRow * _row_size_dynamic;
-            else if constexpr (_dataLayout == TABLE_Max)
-                return _data.data() + iRow * _row_size_dynamic;
-            else if constexpr (_dataLayout == CSR)
-            {
-                if (IfCompressed())
-                    return _data.data() + _pRowStart->at(iRow);
-                else if (this->Size() == 0)
-                {
-                    static_assert(((T *)(NULL) - (T *)(NULL)) == 0);
-                    return (T *)(NULL); // used for past-the-end inquiry of size 0 array
-                }
-                else
-                {
-                    DNDS_assert_info(iRow < _size, "past-the-end query forbidden for CSR uncompressed");
-                    return _dataUncompressed.at(iRow).data();
-                }
-            }
-            else
-            {
-                DNDS_assert_info(false, "invalid call");
-            }
-        }
-
-        const T *operator[](index iRow) const
-        {
-            return static_cast<const T *>(const_cast<self_type *>(this)->operator[](iRow));
-        }
-
-        T *data()
-        {
-            if constexpr (_dataLayout == CSR)
-                DNDS_assert_info(this->IfCompressed(), "CSR must be compressed to get data pointer");
-            return _data.data();
-        }
-
-        size_t DataSize()
-        {
-            if (this->Size() == 0)
-                return 0;
-            if constexpr (_dataLayout == CSR)
-                DNDS_assert_info(this->IfCompressed(), "CSR must be compressed to get data pointer");
-            return _data.size();
-        }
-
-        std::size_t hash()
-        {
-            std::size_t hashData;
-            if constexpr (_dataLayout == CSR)
-            {
-                if (IfCompressed())
-                    hashData = std::hash<decltype(_data)>()(_data);
-                else
-                    hashData = std::hash<decltype(_dataUncompressed)>()(_dataUncompressed);
-            }
-            else
-                hashData = std::hash<decltype(_data)>()(_data);
-            std::size_t hashSize = 0;
-            if (_pRowSizes)
-                hashSize = std::hash<typename decltype(_pRowSizes)::element_type>()(*_pRowSizes);
-            if (_pRowStart)
-                hashSize = std::hash<typename decltype(_pRowStart)::element_type>()(*_pRowStart);
-            return std::hash<std::array<std::size_t, 3>>()(std::array<std::size_t, 3>{std::size_t(_size), hashSize, hashData});
-        }
-
-        friend std::ostream &operator<<(std::ostream &o, const Array<T, _row_size, _row_max, _align> &A)
-        {
-            for (index i = 0; i < A._size; i++)
-            {
-                for (index j = 0; j < A.RowSize(i); j++)
-                    o << A(i, j) << "\t";
-                o << std::endl;
-            }
-            return o;
-        }
-
-        DataLayout GetDataLayout() { return _dataLayout; }
-
-        void CopyData(const self_type &R)
-        {
-            this->operator=(R); // currently ok!
-        }
-
-        void SwapData(self_type &R)
-        {
-            DNDS_assert(R.Size() == this->Size());
-            DNDS_assert(R._data.size() == _data.size());
-            if constexpr (_dataLayout == CSR)
-            {
-                if (IfCompressed())
-                {
-                    _data.swap(R._data);
-                    _pRowStart.swap(R._pRowStart);
-                }
-                else
-                {
-                    _dataUncompressed.swap(R._dataUncompressed);
-                    _pRowSizes.swap(R._pRowSizes);
-                }
-            }
-            else
-            {
-                _data.swap(R._data);
-            }
-        }
-
-        static std::string GetArraySignature()
-        {
-            std::string Layout;
-            if constexpr (_dataLayout == CSR)
-                Layout = "CSR";
-            if constexpr (_dataLayout == TABLE_StaticFixed)
-                Layout = "TABLE_StaticFixed";
-            if constexpr (_dataLayout == TABLE_Fixed)
-                Layout = "TABLE_Fixed";
-            if constexpr (_dataLayout == TABLE_StaticMax)
-                Layout = "TABLE_StaticMax";
-            if constexpr (_dataLayout == TABLE_Max)
-                Layout = "TABLE_Max";
-            return Layout + "__" + std::to_string(sizeof_T) + "_" + std::to_string(_row_size) +
-                   "_" + std::to_string(_row_max) +
-                   "_" + std::to_string(_align);
-        }
-
-        static std::string GetArraySignatureRelaxed()
-        {
-            std::string Layout;
-            if constexpr (_dataLayout == CSR)
-                Layout = "CSR";
-            if constexpr (_dataLayout == TABLE_StaticFixed)
-                Layout = "TABLE_StaticFixed";
-            if constexpr (_dataLayout == TABLE_Fixed)
-                Layout = "TABLE_Fixed";
-            if constexpr (_dataLayout == TABLE_StaticMax)
-                Layout = "TABLE_StaticMax";
-            if constexpr (_dataLayout == TABLE_Max)
-                Layout = "TABLE_Max";
-            return Layout + "__" + std::to_string(sizeof_T) + "_" + std::to_string(-1) +
-                   "_" + std::to_string(-1) +
-                   "_" + std::to_string(_align);
-        }
-
-        std::tuple<int, int, int, int> ParseArraySignatureTuple(const std::string &v)
-        {
-            auto strings = splitSStringClean(v, '_');
-            DNDS_assert(strings.size() == 5 || strings.size() == 6);
-            auto sz = strings.size();
-            return std::make_tuple(std::stoi(strings[sz - 4]), std::stoi(strings[sz - 3]), std::stoi(strings[sz - 2]), std::stoi(strings[sz - 1]));
-        }
-
-        bool ArraySignatureIsCompatible(const std::string &v)
-        {
-            auto [sz, rs, rm, align] = ParseArraySignatureTuple(v);
-            if (sz != sizeof_T)
-                return false;
-            if (rs >= 0 && _row_size >= 0 && rs != _row_size)
-                return false;
-            if (rm >= 0 && _row_max >= 0 && rm != _row_max)
-                return false;
-            return true;
-        }
-
-        void __WriteSerializerData(const Serializer::SerializerBaseSSP &serializerP, Serializer::ArrayGlobalOffset offset)
-        {
-            auto treatAsBytes = [&]()
-            { serializerP->WriteUint8Array("data", (uint8_t *)_data.data(), _data.size() * sizeof_T, offset * sizeof_T); };
-            if constexpr (std::is_same_v<T, index>)
-                serializerP->WriteIndexVector("data", _data, offset);
-            else if constexpr (std::is_same_v<T, real>)
-            {
-                if (!std::dynamic_pointer_cast<Serializer::SerializerJSON>(serializerP))
-                    serializerP->WriteRealVector("data", _data, offset);
-                else
-                    treatAsBytes();
-            }
-            else
-                treatAsBytes();
-        }
-
-        void __ReadSerializerData(const Serializer::SerializerBaseSSP &serializerP, Serializer::ArrayGlobalOffset &offset)
-        {
-            auto treatAsBytes = [&]()
-            {
-                index bufferSize{0};
-                serializerP->ReadUint8Array("data", nullptr, bufferSize, offset);
-                DNDS_assert(bufferSize % sizeof_T == 0);
-                _data.resize(bufferSize / sizeof_T);
-                serializerP->ReadUint8Array("data", (uint8_t *)_data.data(), bufferSize, offset);
-                offset.CheckMultipleOf(sizeof_T);
-                offset = offset / sizeof_T;
-            };
-
-            if constexpr (std::is_same_v<T, index>)
-                serializerP->ReadIndexVector("data", _data, offset);
-            else if constexpr (std::is_same_v<T, real>)
-            {
-                if (!std::dynamic_pointer_cast<Serializer::SerializerJSON>(serializerP))
-                    serializerP->ReadRealVector("data", _data, offset);
-                else
-                    treatAsBytes();
-            }
-            else
-                treatAsBytes();
-        }
-
-        void WriteSerializer(Serializer::SerializerBaseSSP serializerP, const std::string &name, Serializer::ArrayGlobalOffset offset)
-        {
-            auto cwd = serializerP->GetCurrentPath();
-            serializerP->CreatePath(name);
-            serializerP->GoToPath(name);
-
-            serializerP->WriteString("array_sig", this->GetArraySignature());
-            serializerP->WriteString("array_type", typeid(self_type).name());
-            if (serializerP->IsPerRank())
-                serializerP->WriteIndex("size", _size);
-            else
-            {
-                std::vector<index> _size_vv;
-                _size_vv.push_back(_size);
-                serializerP->WriteIndexVectorPerRank("size", _size_vv);
-            }
-            serializerP->WriteInt("row_size_dynamic", _row_size_dynamic);
-            // if (_size == 0) //! cannot do this, collective calls!
-            //     return;
-            if constexpr (_dataLayout == CSR)
-            {
-                if (!this->IfCompressed())
-                    this->Compress();
-                serializerP->WriteSharedIndexVector("pRowStart", _pRowStart, offset);
-            }
-            else if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax)
-            {
-                serializerP->WriteSharedRowsizeVector("pRowSizes", _pRowSizes, offset);
-            }
-            else // fixed
-            {
-            }
-            // doing data
-            this->__WriteSerializerData(serializerP, offset);
-
-            serializerP->GoToPath(cwd);
-        }
-
-        void ReadSerializer(Serializer::SerializerBaseSSP serializerP, const std::string &name, Serializer::ArrayGlobalOffset &offset)
-        {
-            auto cwd = serializerP->GetCurrentPath();
-            // serializerP->CreatePath(name); //! if you create, all data will be erased
-            serializerP->GoToPath(name);
-
-            std::string array_sigRead;
-            serializerP->ReadString("array_sig", array_sigRead);
-            //! TODO: parse the sizes and correctly handle dynamic reading
-            DNDS_assert_info(array_sigRead == this->GetArraySignature() || ArraySignatureIsCompatible(array_sigRead),
-                             array_sigRead + ", i am : " + this->GetArraySignature());
-            auto [szR, rsR, rmR, align] = ParseArraySignatureTuple(array_sigRead);
-            if (_row_size != rsR)
-            {
-                if (_row_size == NonUniformSize || rsR == NonUniformSize)
-                    DNDS_assert_info(false, "can't handle here");
-            }
-            if (serializerP->IsPerRank())
-                serializerP->ReadIndex("size", _size);
-            else
-            {
-                std::vector<index> _size_vv;
-                Serializer::ArrayGlobalOffset offsetV = Serializer::ArrayGlobalOffset_Unknown;
-                serializerP->ReadIndexVector("size", _size_vv, offsetV);
-                DNDS_assert(_size_vv.size() == 1);
-                _size = _size_vv.front();
-            }
-            serializerP->ReadInt("row_size_dynamic", _row_size_dynamic);
-            if (_row_size >= 0) // TODO: fix this! need full conversion check (maybe just a casting)
-            {
-                if (rsR == DynamicSize)
-                    DNDS_assert(_row_size_dynamic == _row_size), _row_size_dynamic = 0;
-                else if (rsR >= 0)
-                    DNDS_assert(rsR == _row_size), _row_size_dynamic = 0;
-            }
-            if (_row_size == DynamicSize && rsR >= 0)
-                _row_size_dynamic = rsR;
-            if (_row_max == DynamicSize && rmR >= 0)
-                _row_size_dynamic = rmR; // TODO: fix this! need a _row_max_dynamic ?
-            // if (_size == 0) //! cannot do this, collective calls!
-            //     return;
-            if constexpr (_dataLayout == CSR)
-            {
-                serializerP->ReadSharedIndexVector("pRowStart", _pRowStart, offset);
-                // todo: make the data inside the file correspond to full disp? is that necessary?
-            }
-            else if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax)
-            {
-                serializerP->ReadSharedRowsizeVector("pRowSizes", _pRowSizes, offset);
-            }
-            else // fixed
-            {
-            }
-            // doing data
-            {
-                Serializer::ArrayGlobalOffset offsetV = Serializer::ArrayGlobalOffset_Unknown; // todo: utilize results from input offset (non CSR) or pRowStart data
-                this->__ReadSerializerData(serializerP, offsetV);
-                if constexpr (_dataLayout == TABLE_StaticFixed || _dataLayout == TABLE_Fixed)
-                {
-                    offsetV.CheckMultipleOf(this->RowSize());
-                    offset = offsetV / this->RowSize(); // to make sure offset in the output is valid (on the elements)
-                }
-            }
-            // TODO: check data validity
-
-            serializerP->GoToPath(cwd);
-        }
-    };
-
-}
-
-#endif
+#pragma once
+#ifndef DNDS_ARRAY_HPP
+#define DNDS_ARRAY_HPP
+
+#include <vector>
+#include <iostream>
+#include <typeinfo>
+#include <utility>
+
+#include <fmt/core.h>
+
+#include "Defines.hpp"
+#include "SerializerBase.hpp"
+#include "SerializerJSON.hpp"
+
+namespace DNDS
+{
+    static const rowsize NoAlign = -1;
+
+    enum DataLayout
+    {
+        ErrorLayout,
+        TABLE_StaticFixed,
+        TABLE_Fixed,
+        TABLE_Max,
+        TABLE_StaticMax,
+        CSR,
+    };
+
+    inline constexpr bool isTABLE(DataLayout lo)
+    {
+        return lo == TABLE_StaticFixed || lo == TABLE_Fixed || lo == TABLE_Max || lo == TABLE_StaticMax;
+    }
+    inline constexpr bool isTABLE_Fixed(DataLayout lo)
+    {
+        return lo == TABLE_StaticFixed || lo == TABLE_Fixed;
+    }
+    inline constexpr bool isTABLE_Max(DataLayout lo)
+    {
+        return lo == TABLE_Max || lo == TABLE_StaticMax;
+    }
+    inline constexpr bool isTABLE_Static(DataLayout lo)
+    {
+        return lo == TABLE_StaticFixed || lo == TABLE_StaticMax;
+    }
+    inline constexpr bool isTABLE_Dynamic(DataLayout lo)
+    {
+        return lo == TABLE_Fixed || lo == TABLE_Max;
+    }
+
+    template <class T>
+    inline constexpr bool array_comp_acceptable()
+    {
+        return std::is_trivially_copyable_v<T> || Meta::is_fixed_data_real_eigen_matrix_v<T>;
+    }
+
+    /**
+     * @brief 2D var-len data container template
+     * @details
+     * ## Array's types
+     * |                         | _row_size>=0                         | _row_size==DynamicSize              | _row_size==NonUniformSize |
+     * | ---                     |          ---                         |                    ---              |                       --- |
+     * |_row_max>=0              |  TABLE_StaticFixed                   |  TABLE_Fixed                        |   TABLE_StaticMax         |
+     * |_row_max==DynamicSize    |  TABLE_StaticFixed _row_max ignored  |  TABLE_Fixed  _row_max ignored      |   TABLE_Max               |
+     * |_row_max==NonUniformSize |  TABLE_StaticFixed _row_max ignored  |  TABLE_Fixed  _row_max ignored      |   CSR                     |
+     *
+     * @todo //TODO implement align feature
+     *
+     *
+     * @tparam T
+     * @tparam _row_size
+     * @tparam _row_max
+     * @tparam _align
+     */
+    template <class T, rowsize _row_size = 1, rowsize _row_max = _row_size, rowsize _align = NoAlign>
+    class Array
+    {
+    public:
+        using value_type = T;
+        using self_type = Array<T, _row_size, _row_max, _align>;
+        static const rowsize al = _align;
+        static const rowsize rs = _row_size;
+        static const rowsize rm = _row_max;
+        static const unsigned sizeof_T = sizeof(value_type);
+
+        static_assert(sizeof_T <= (1024ULL * 1024ULL * 1024ULL), "Row size larger than 1G");
+        static_assert(array_comp_acceptable<T>(), "Do not put in a non trivially copyable type ");
+
+        static_assert(al == NoAlign || al >= 1, "Align bad");
+
+        static const rowsize s_T = al == NoAlign ? sizeof_T : (sizeof_T / al + 1) * al;
+        static_assert(s_T >= sizeof_T && s_T - sizeof_T < (al == NoAlign ? 1 : al), "I1");
+
+        static constexpr DataLayout _GetDataLayout()
+        {
+            if constexpr (rs != DynamicSize && rs != NonUniformSize && rs >= 0)
+                return TABLE_StaticFixed;
+            else if constexpr (rs == DynamicSize)
+                return TABLE_Fixed;
+            else if constexpr (rs == NonUniformSize)
+            {
+                if constexpr (rm == NonUniformSize)
+                    return CSR;
+                else if constexpr (rm == DynamicSize)
+                    return TABLE_Max;
+                else if constexpr (rm >= 0)
+                    return TABLE_StaticMax;
+                else
+                    return ErrorLayout;
+            }
+            else
+                return ErrorLayout;
+        }
+        static const DataLayout _dataLayout = _GetDataLayout();
+        static_assert(_dataLayout != ErrorLayout, "Layout Error");
+        static const bool isCSR = _dataLayout == CSR;
+
+    public:
+        //* compressed data
+        using t_Data = std::vector<value_type>;
+        //* uncompressed data (only for CSR)
+        using t_DataUncompressed = std::vector<std::vector<value_type>>;
+
+        //* non uniform data: CSR
+        using t_RowStart = std::vector<index>;
+        using t_pRowStart = ssp<t_RowStart>;
+
+        //* non uniform-with max data: TABLE
+        using t_RowSizes = std::vector<rowsize>;
+        using t_pRowSizes = ssp<t_RowSizes>;
+
+    private:
+        t_pRowStart _pRowStart; // CSR   in number of T
+        t_pRowSizes _pRowSizes; // TABLE in number of T
+        t_Data _data;
+        t_DataUncompressed _dataUncompressed;
+
+        index _size = 0;               // in number of T
+        rowsize _row_size_dynamic = 0; // in number of T
+    public:
+        t_pRowStart getRowStart() { return _pRowStart; }
+        t_pRowSizes getRowSizes() { return _pRowSizes; }
+
+    public:
+        // default constructor using default:
+        Array() = default;
+        // copy constructor using default;
+        Array(const self_type &R) = default;
+
+        // TODO: constructors
+        // TODO: A indexer-copying build method:
+        // TODO: for CSR: c->c, u->u
+        // TODO: for intertype: CSR->Max, Max->CSR ...
+
+        // read size
+        [[nodiscard]] index Size() const { return _size; }
+
+        [[nodiscard]] rowsize RowSize() const // iRow is actually dummy here
+        {
+            if constexpr (_dataLayout == TABLE_Fixed)
+                return _row_size_dynamic;
+            else if constexpr (_dataLayout == TABLE_StaticFixed)
+                return rs;
+            else
+            {
+                DNDS_assert_info(false, "invalid call");
+                return -1;
+            }
+        }
+
+        [[nodiscard]] rowsize RowSize(index iRow) const
+        {
+            if constexpr (_dataLayout == TABLE_Fixed)
+                return _row_size_dynamic;
+            else if constexpr (_dataLayout == TABLE_StaticFixed)
+                return rs;
+            DNDS_assert_info(iRow < _size && iRow >= 0, "query position out of range");
+            if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax) // TABLE with Max
+            {
+                DNDS_assert_info(_pRowSizes, "_pRowSizes invalid"); // TABLE with Max must have a RowSizes
+                return _pRowSizes->at(iRow);
+            }
+            else if constexpr (_dataLayout == CSR)
+            {
+                if (IfCompressed())
+                {
+                    index pDiff = _pRowStart->at(iRow + 1) - _pRowStart->at(iRow);
+                    DNDS_assert(pDiff < INT32_MAX); // overflow
+                    return static_cast<rowsize>(pDiff);
+                }
+                else
+                {
+                    auto rs_cur = _dataUncompressed.at(iRow).size();
+                    return static_cast<rowsize>(rs_cur);
+                }
+            }
+        }
+
+        [[nodiscard]] rowsize RowSizeMax() const
+        {
+            if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax)
+                return _dataLayout == TABLE_Max ? _row_size_dynamic : rm;
+            else
+                DNDS_assert_info(false, "invalid call");
+        }
+
+        [[nodiscard]] rowsize RowSizeField() const
+        {
+            if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax)
+                return this->RowSizeMax();
+            else if constexpr (_dataLayout == TABLE_Fixed || _dataLayout == TABLE_StaticFixed)
+                return this->RowSize();
+            else
+                DNDS_assert_info(false, "invalid call");
+        }
+
+        [[nodiscard]] rowsize RowSizeField(index iRow)
+        {
+            if constexpr (_dataLayout == CSR)
+                return this->RowSize(iRow);
+            else
+                DNDS_assert_info(false, "invalid call");
+        }
+
+        [[nodiscard]] bool IfCompressed() const
+        {
+
+            if constexpr (_dataLayout == CSR)
+            {
+                if (_size > 0)
+                {
+                    return bool(_pRowStart);
+                }
+                return false; // size 0 array is defined as un-compressed
+            }
+            else
+            {
+                DNDS_assert_info(false, "invalid call");
+                return false;
+            }
+        }
+
+        void CSRDecompress()
+        {
+            if (!IfCompressed())
+                return;
+            _dataUncompressed.resize(_size);
+            for (index i = 0; i < _size; i++)
+            {
+                // _dataUncompressed[i].resize( - _pRowStart->at(i));
+                auto iterStart = _data.begin() + _pRowStart->at(i);
+                auto iterEnd = _data.begin() + _pRowStart->at(i + 1);
+                _dataUncompressed[i].assign(iterStart, iterEnd);
+            }
+            _data.clear();
+            _pRowStart.reset();
+        }
+
+        void CSRCompress()
+        {
+            if (IfCompressed())
+                return;
+            _pRowStart = std::make_shared<
+                typename decltype(_pRowStart)::element_type>(_size + 1, 0);
+            _pRowStart->at(0) = 0;
+            for (index i = 0; i < _size; i++)
+            {
+                index rsI = _pRowStart->at(i);
+                index rsIP = rsI + static_cast<index>(_dataUncompressed.at(i).size());
+                DNDS_assert(rsIP >= rsI);
+                _pRowStart->at(i + 1) = rsIP;
+            }
+            _data.resize(_pRowStart->at(_size));
+            for (index i = 0; i < _size; i++)
+            {
+                // // _dataUncompressed[i].resize( - _pRowStart->at(i));
+                // auto iterStart = _data.begin() + _pRowStart->at(i);
+                // auto iterEnd = _data.begin() + _pRowStart->at(i + 1);
+                // _dataUncompressed[i].assign(iterStart, iterEnd);
+                // _data.push_back(data)
+                memcpy(_data.data() + _pRowStart->at(i), _dataUncompressed[i].data(),
+                       sizeof(T) * _dataUncompressed[i].size());
+                DNDS_assert(_pRowStart->at(i) + _dataUncompressed[i].size() <= _data.size());
+                //! any better way?
+            }
+            _dataUncompressed.clear();
+        }
+
+        void Compress()
+        {
+            if constexpr (_dataLayout == CSR)
+                CSRCompress();
+        }
+        void Decompress()
+        {
+            if constexpr (_dataLayout == CSR)
+                CSRDecompress();
+        }
+
+        t_Data &RawDataVector()
+        {
+            if constexpr (_dataLayout == CSR)
+                DNDS_assert(IfCompressed());
+            return _data;
+        }
+
+        /**
+         * @brief resize invalidates all data and aux, and resets the sizes info to 0 for max
+         *
+         * @param nSize
+         * @param nRow_size_dynamic
+         * @return std::enable_if_t<
+         * _dataLayout == TABLE_Fixed ||
+         * _dataLayout == TABLE_StaticFixed ||
+         * _dataLayout == TABLE_Max ||
+         * _dataLayout == TABLE_StaticMax,
+         * void>
+         */
+        void Resize(index nSize, rowsize nRow_size_dynamic)
+        {
+            if constexpr (_dataLayout == CSR) // to un compressed
+            {
+                DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing");
+                _size = nSize;
+                // _dataUncompressed.resize(nSize, typename decltype(_dataUncompressed)::value_type(nRow_size_dynamic));
+                _dataUncompressed.resize(nSize);
+            }
+            else
+            {
+                _size = nSize;
+                if constexpr (_dataLayout == TABLE_Fixed || _dataLayout == TABLE_Max)
+                    _data.resize(nSize * nRow_size_dynamic), _row_size_dynamic = nRow_size_dynamic;
+                else if constexpr (_dataLayout == TABLE_StaticFixed)
+                    _data.resize(nSize * rs), DNDS_assert(nRow_size_dynamic == rs);
+                else if constexpr (_dataLayout == TABLE_StaticMax)
+                    _data.resize(nSize * rm), DNDS_assert(nRow_size_dynamic == rm);
+
+                if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax)
+                {
+                    if (_pRowSizes.use_count() == 1)
+                        _pRowSizes->assign(nSize, 0);
+                    else
+                        _pRowSizes = std::make_shared<
+                            typename decltype(_pRowSizes)::element_type>(nSize, 0);
+                }
+            }
+        }
+
+        void Resize(index nSize)
+        {
+            if constexpr (_dataLayout == CSR)
+            {
+                DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing");
+                _size = nSize;
+                _dataUncompressed.resize(nSize);
+            }
+            else if constexpr (_dataLayout == TABLE_StaticFixed)
+            {
+                _size = nSize;
+                _data.resize(nSize * rs);
+            }
+            else if constexpr (_dataLayout == TABLE_StaticMax)
+            {
+                _size = nSize;
+                _data.resize(nSize * rm);
+                if (_pRowSizes.use_count() == 1)
+                    _pRowSizes->assign(nSize, 0);
+                else
+                    _pRowSizes = std::make_shared<
+                        typename decltype(_pRowSizes)::element_type>(nSize, 0);
+            }
+            else
+            {
+                DNDS_assert_info(false, "invalid call");
+            }
+        }
+
+        template <class TFRowSize>
+        void Resize(index nSize, TFRowSize &&FRowSize)
+        {
+            if constexpr (_dataLayout == CSR)
+            {
+                _size = nSize;
+                _pRowSizes.reset(), _dataUncompressed.clear(); //*directly to compressed
+                _pRowStart = std::make_shared<typename decltype(_pRowStart)::element_type>(nSize + 1);
+                _pRowStart->operator[](0) = 0;
+                for (index i = 0; i < nSize; i++)
+                    (*_pRowStart)[i + 1] = (*_pRowStart)[i] + FRowSize(i);
+                _data.resize(_pRowStart->at(nSize));
+            }
+            static_assert(_dataLayout == CSR, "Only Non Uniform, CSR for now");
+            static_assert(std::is_invocable_r_v<rowsize, TFRowSize, index>, "Call invalid");
+        }
+
+        /**
+         * @brief resize one row
+         * valid only for non-uniform
+         *
+         * @param iRow
+         * @param nRowSize
+         */
+        void ResizeRow(index iRow, rowsize nRowSize)
+        {
+            if constexpr (_dataLayout == CSR)
+            {
+                DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing row");
+                DNDS_assert_info(iRow < _size && iRow >= 0, "query position out of range");
+                _dataUncompressed.at(iRow).resize(nRowSize);
+            }
+            else if constexpr (_dataLayout == TABLE_Max ||
+                               _dataLayout == TABLE_StaticMax)
+            {
+                DNDS_assert(nRowSize <= (_dataLayout == TABLE_Max ? _row_size_dynamic : rm)); //_row_size_dynamic is max now
+                DNDS_assert_info(iRow < _size && iRow >= 0, "query position out of range");
+                DNDS_assert_info(_pRowSizes, "_pRowSizes invalid");
+                if (_pRowSizes.use_count() > 1) // shared
+                    _pRowSizes = std::make_shared<
+                        typename decltype(_pRowSizes)::element_type>(*_pRowSizes); // copy the row sizes
+                _pRowSizes->at(iRow) = nRowSize;                                   // change
+            }
+            else
+            {
+                DNDS_assert_info(false, "invalid call");
+            }
+        }
+
+        void ReserveRow(index iRow, rowsize nRowSize)
+        {
+            if constexpr (_dataLayout == CSR)
+            {
+                DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing row");
+                DNDS_assert_info(iRow < _size && iRow >= 0, "query position out of range");
+                _dataUncompressed.at(iRow).reserve(nRowSize);
+            }
+            else
+            {
+                DNDS_assert_info(false, "invalid call");
+            }
+        }
+
+        // TODO: Data reference query method and pointer query method
+        // TODO: ? same-size compress for non-uniforms
+
+        const T &at(index iRow, rowsize iCol) const
+        {
+            DNDS_assert_info(iRow < _size && iRow >= 0,
+                             fmt::format(
+                                 "query position i[{}] out of range [0, {}), sig--{}",
+                                 iRow, _size, GetArraySignature()));
+            DNDS_assert_info(iCol < RowSize(iRow) && iCol >= 0,
+                             fmt::format(
+                                 "query position j[{}] out of range [0, {}), sig--{}",
+                                 iCol, RowSize(iRow), GetArraySignature()));
+            if constexpr (_dataLayout == TABLE_StaticFixed)
+                return _data.at(iRow * rs + iCol);
+            else if constexpr (_dataLayout == TABLE_StaticMax)
+                return _data.at(iRow * rm + iCol);
+            else if constexpr (_dataLayout == TABLE_Fixed)
+                return _data.at(iRow * _row_size_dynamic + iCol);
+            else if constexpr (_dataLayout == TABLE_Max)
+                return _data.at(iRow * _row_size_dynamic + iCol);
+            else if constexpr (_dataLayout == CSR)
+            {
+                if (IfCompressed())
+                    return _data.at(_pRowStart->at(iRow) + iCol);
+                else
+                    return _dataUncompressed.at(iRow).at(iCol);
+            }
+            else
+            {
+                DNDS_assert_info(false, "invalid call");
+            }
+        }
+
+        T &operator()(index iRow, rowsize iCol)
+        {
+            return const_cast<T &>(at(iRow, iCol));
+        }
+
+        const T &operator()(index iRow, rowsize iCol) const
+        {
+            return at(iRow, iCol);
+        }
+
+        /**
+         * @brief iRow could be past-the-end to query past-the-end position pointer
+         *
+         * @param iRow
+         * @return T*
+         */
+        T *operator[](index iRow)
+        {
+            DNDS_assert_info(iRow <= _size && iRow >= 0, "query position i out of range");
+            if constexpr (_dataLayout == TABLE_StaticFixed)
+                return _data.data() + iRow * rs;
+            else if constexpr (_dataLayout == TABLE_StaticMax)
+                return _data.data() + iRow * rm;
+            else if constexpr (_dataLayout == TABLE_Fixed)
+                return _data.data() + iRow * _row_size_dynamic;
+            else if constexpr (_dataLayout == TABLE_Max)
+                return _data.data() + iRow * _row_size_dynamic;
+            else if constexpr (_dataLayout == CSR)
+            {
+                if (IfCompressed())
+                    return _data.data() + _pRowStart->at(iRow);
+                else if (this->Size() == 0)
+                {
+                    static_assert(((T *)(NULL) - (T *)(NULL)) == 0);
+                    return (T *)(NULL); // used for past-the-end inquiry of size 0 array
+                }
+                else
+                {
+                    DNDS_assert_info(iRow < _size, "past-the-end query forbidden for CSR uncompressed");
+                    return _dataUncompressed.at(iRow).data();
+                }
+            }
+            else
+            {
+                DNDS_assert_info(false, "invalid call");
+            }
+        }
+
+        const T *operator[](index iRow) const
+        {
+            return static_cast<const T *>(const_cast<self_type *>(this)->operator[](iRow));
+        }
+
+        T *data()
+        {
+            if constexpr (_dataLayout == CSR)
+                DNDS_assert_info(this->IfCompressed(), "CSR must be compressed to get data pointer");
+            return _data.data();
+        }
+
+        size_t DataSize()
+        {
+            if (this->Size() == 0)
+                return 0;
+            if constexpr (_dataLayout == CSR)
+                DNDS_assert_info(this->IfCompressed(), "CSR must be compressed to get data pointer");
+            return _data.size();
+        }
+
+        std::size_t hash()
+        {
+            std::size_t hashData;
+            if constexpr (_dataLayout == CSR)
+            {
+                if (IfCompressed())
+                    hashData = std::hash<decltype(_data)>()(_data);
+                else
+                    hashData = std::hash<decltype(_dataUncompressed)>()(_dataUncompressed);
+            }
+            else
+                hashData = std::hash<decltype(_data)>()(_data);
+            std::size_t hashSize = 0;
+            if (_pRowSizes)
+                hashSize = std::hash<typename decltype(_pRowSizes)::element_type>()(*_pRowSizes);
+            if (_pRowStart)
+                hashSize = std::hash<typename decltype(_pRowStart)::element_type>()(*_pRowStart);
+            return std::hash<std::array<std::size_t, 3>>()(std::array<std::size_t, 3>{std::size_t(_size), hashSize, hashData});
+        }
+
+        friend std::ostream &operator<<(std::ostream &o, const Array<T, _row_size, _row_max, _align> &A)
+        {
+            for (index i = 0; i < A._size; i++)
+            {
+                for (index j = 0; j < A.RowSize(i); j++)
+                    o << A(i, j) << "\t";
+                o << std::endl;
+            }
+            return o;
+        }
+
+        DataLayout GetDataLayout() { return _dataLayout; }
+
+        void CopyData(const self_type &R)
+        {
+            this->operator=(R); // currently ok!
+        }
+
+        void SwapData(self_type &R)
+        {
+            DNDS_assert(R.Size() == this->Size());
+            DNDS_assert(R._data.size() == _data.size());
+            if constexpr (_dataLayout == CSR)
+            {
+                if (IfCompressed())
+                {
+                    _data.swap(R._data);
+                    _pRowStart.swap(R._pRowStart);
+                }
+                else
+                {
+                    _dataUncompressed.swap(R._dataUncompressed);
+                    _pRowSizes.swap(R._pRowSizes);
+                }
+            }
+            else
+            {
+                _data.swap(R._data);
+            }
+        }
+
+        static std::string GetArraySignature()
+        {
+            std::string Layout;
+            if constexpr (_dataLayout == CSR)
+                Layout = "CSR";
+            if constexpr (_dataLayout == TABLE_StaticFixed)
+                Layout = "TABLE_StaticFixed";
+            if constexpr (_dataLayout == TABLE_Fixed)
+                Layout = "TABLE_Fixed";
+            if constexpr (_dataLayout == TABLE_StaticMax)
+                Layout = "TABLE_StaticMax";
+            if constexpr (_dataLayout == TABLE_Max)
+                Layout = "TABLE_Max";
+            return Layout + "__" + std::to_string(sizeof_T) + "_" + std::to_string(_row_size) +
+                   "_" + std::to_string(_row_max) +
+                   "_" + std::to_string(_align);
+        }
+
+        static std::string GetArraySignatureRelaxed()
+        {
+            std::string Layout;
+            if constexpr (_dataLayout == CSR)
+                Layout = "CSR";
+            if constexpr (_dataLayout == TABLE_StaticFixed)
+                Layout = "TABLE_StaticFixed";
+            if constexpr (_dataLayout == TABLE_Fixed)
+                Layout = "TABLE_Fixed";
+            if constexpr (_dataLayout == TABLE_StaticMax)
+                Layout = "TABLE_StaticMax";
+            if constexpr (_dataLayout == TABLE_Max)
+                Layout = "TABLE_Max";
+            return Layout + "__" + std::to_string(sizeof_T) + "_" + std::to_string(-1) +
+                   "_" + std::to_string(-1) +
+                   "_" + std::to_string(_align);
+        }
+
+        std::tuple<int, int, int, int> ParseArraySignatureTuple(const std::string &v)
+        {
+            auto strings = splitSStringClean(v, '_');
+            DNDS_assert(strings.size() == 5 || strings.size() == 6);
+            auto sz = strings.size();
+            return std::make_tuple(std::stoi(strings[sz - 4]), std::stoi(strings[sz - 3]), std::stoi(strings[sz - 2]), std::stoi(strings[sz - 1]));
+        }
+
+        bool ArraySignatureIsCompatible(const std::string &v)
+        {
+            auto [sz, rs, rm, align] = ParseArraySignatureTuple(v);
+            if (sz != sizeof_T)
+                return false;
+            if (rs >= 0 && _row_size >= 0 && rs != _row_size)
+                return false;
+            if (rm >= 0 && _row_max >= 0 && rm != _row_max)
+                return false;
+            return true;
+        }
+
+        void __WriteSerializerData(const Serializer::SerializerBaseSSP &serializerP, Serializer::ArrayGlobalOffset offset)
+        {
+            auto treatAsBytes = [&]()
+            { serializerP->WriteUint8Array("data", (uint8_t *)_data.data(), _data.size() * sizeof_T, offset * sizeof_T); };
+            if constexpr (std::is_same_v<T, index>)
+                serializerP->WriteIndexVector("data", _data, offset);
+            else if constexpr (std::is_same_v<T, real>)
+            {
+                if (!std::dynamic_pointer_cast<Serializer::SerializerJSON>(serializerP))
+                    serializerP->WriteRealVector("data", _data, offset);
+                else
+                    treatAsBytes();
+            }
+            else
+                treatAsBytes();
+        }
+
+        void __ReadSerializerData(const Serializer::SerializerBaseSSP &serializerP, Serializer::ArrayGlobalOffset &offset)
+        {
+            auto treatAsBytes = [&]()
+            {
+                index bufferSize{0};
+                serializerP->ReadUint8Array("data", nullptr, bufferSize, offset);
+                DNDS_assert(bufferSize % sizeof_T == 0);
+                _data.resize(bufferSize / sizeof_T);
+                serializerP->ReadUint8Array("data", (uint8_t *)_data.data(), bufferSize, offset);
+                offset.CheckMultipleOf(sizeof_T);
+                offset = offset / sizeof_T;
+            };
+
+            if constexpr (std::is_same_v<T, index>)
+                serializerP->ReadIndexVector("data", _data, offset);
+            else if constexpr (std::is_same_v<T, real>)
+            {
+                if (!std::dynamic_pointer_cast<Serializer::SerializerJSON>(serializerP))
+                    serializerP->ReadRealVector("data", _data, offset);
+                else
+                    treatAsBytes();
+            }
+            else
+                treatAsBytes();
+        }
+
+        void WriteSerializer(Serializer::SerializerBaseSSP serializerP, const std::string &name, Serializer::ArrayGlobalOffset offset)
+        {
+            auto cwd = serializerP->GetCurrentPath();
+            serializerP->CreatePath(name);
+            serializerP->GoToPath(name);
+
+            serializerP->WriteString("array_sig", this->GetArraySignature());
+            serializerP->WriteString("array_type", typeid(self_type).name());
+            if (serializerP->IsPerRank())
+                serializerP->WriteIndex("size", _size);
+            else
+            {
+                std::vector<index> _size_vv;
+                _size_vv.push_back(_size);
+                serializerP->WriteIndexVectorPerRank("size", _size_vv);
+            }
+            serializerP->WriteInt("row_size_dynamic", _row_size_dynamic);
+            // if (_size == 0) //! cannot do this, collective calls!
+            //     return;
+            if constexpr (_dataLayout == CSR)
+            {
+                if (!this->IfCompressed())
+                    this->Compress();
+                serializerP->WriteSharedIndexVector("pRowStart", _pRowStart, offset);
+            }
+            else if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax)
+            {
+                serializerP->WriteSharedRowsizeVector("pRowSizes", _pRowSizes, offset);
+            }
+            else // fixed
+            {
+            }
+            // doing data
+            this->__WriteSerializerData(serializerP, offset);
+
+            serializerP->GoToPath(cwd);
+        }
+
+        void ReadSerializer(Serializer::SerializerBaseSSP serializerP, const std::string &name, Serializer::ArrayGlobalOffset &offset)
+        {
+            auto cwd = serializerP->GetCurrentPath();
+            // serializerP->CreatePath(name); //! if you create, all data will be erased
+            serializerP->GoToPath(name);
+
+            std::string array_sigRead;
+            serializerP->ReadString("array_sig", array_sigRead);
+            //! TODO: parse the sizes and correctly handle dynamic reading
+            DNDS_assert_info(array_sigRead == this->GetArraySignature() || ArraySignatureIsCompatible(array_sigRead),
+                             array_sigRead + ", i am : " + this->GetArraySignature());
+            auto [szR, rsR, rmR, align] = ParseArraySignatureTuple(array_sigRead);
+            if (_row_size != rsR)
+            {
+                if (_row_size == NonUniformSize || rsR == NonUniformSize)
+                    DNDS_assert_info(false, "can't handle here");
+            }
+            if (serializerP->IsPerRank())
+                serializerP->ReadIndex("size", _size);
+            else
+            {
+                std::vector<index> _size_vv;
+                Serializer::ArrayGlobalOffset offsetV = Serializer::ArrayGlobalOffset_Unknown;
+                serializerP->ReadIndexVector("size", _size_vv, offsetV);
+                DNDS_assert(_size_vv.size() == 1);
+                _size = _size_vv.front();
+            }
+            serializerP->ReadInt("row_size_dynamic", _row_size_dynamic);
+            if (_row_size >= 0) // TODO: fix this! need full conversion check (maybe just a casting)
+            {
+                if (rsR == DynamicSize)
+                    DNDS_assert(_row_size_dynamic == _row_size), _row_size_dynamic = 0;
+                else if (rsR >= 0)
+                    DNDS_assert(rsR == _row_size), _row_size_dynamic = 0;
+            }
+            if (_row_size == DynamicSize && rsR >= 0)
+                _row_size_dynamic = rsR;
+            if (_row_max == DynamicSize && rmR >= 0)
+                _row_size_dynamic = rmR; // TODO: fix this! need a _row_max_dynamic ?
+            // if (_size == 0) //! cannot do this, collective calls!
+            //     return;
+            if constexpr (_dataLayout == CSR)
+            {
+                serializerP->ReadSharedIndexVector("pRowStart", _pRowStart, offset);
+                // todo: make the data inside the file correspond to full disp? is that necessary?
+            }
+            else if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax)
+            {
+                serializerP->ReadSharedRowsizeVector("pRowSizes", _pRowSizes, offset);
+            }
+            else // fixed
+            {
+            }
+            // doing data
+            {
+                Serializer::ArrayGlobalOffset offsetV = Serializer::ArrayGlobalOffset_Unknown; // todo: utilize results from input offset (non CSR) or pRowStart data
+                this->__ReadSerializerData(serializerP, offsetV);
+                if constexpr (_dataLayout == TABLE_StaticFixed || _dataLayout == TABLE_Fixed)
+                {
+                    offsetV.CheckMultipleOf(this->RowSize());
+                    offset = offsetV / this->RowSize(); // to make sure offset in the output is valid (on the elements)
+                }
+            }
+            // TODO: check data validity
+
+            serializerP->GoToPath(cwd);
+        }
+    };
+
+}
+
+#endif
-- 
2.43.0


From f5f80eb10d04e6211706007f43838283aef449d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 06/47] fix: resizing a CSR array that was compressed while
 empty left it with a stale row-start table

---
 src/DNDS/Array.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DNDS/Array.hpp b/src/DNDS/Array.hpp
index 06d0328..95e4f99 100644
--- a/src/DNDS/Array.hpp
+++ b/src/DNDS/Array.hpp
@@ -321,6 +321,7 @@ namespace DNDS
             if constexpr (_dataLayout == CSR) // to un compressed
             {
                 DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing");
+                _pRowStart.reset(); // compressing an empty array leaves one
                 _size = nSize;
                 // _dataUncompressed.resize(nSize, typename decltype(_dataUncompressed)::value_type(nRow_size_dynamic));
                 _dataUncompressed.resize(nSize);
@@ -351,6 +352,7 @@ namespace DNDS
             if constexpr (_dataLayout == CSR)
             {
                 DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing");
+                _pRowStart.reset(); // compressing an empty array leaves one
                 _size = nSize;
                 _dataUncompressed.resize(nSize);
             }
-- 
2.43.0


From 8c03053cb66a68284d063f15e5709ea4e1e21da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 07/47] fix: Array::SwapData left the row sizes of max-layout
 arrays behind

---
 src/DNDS/Array.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DNDS/Array.hpp b/src/DNDS/Array.hpp
index 95e4f99..7a447e7 100644
--- a/src/DNDS/Array.hpp
+++ b/src/DNDS/Array.hpp
@@ -601,6 +601,7 @@ namespace DNDS
             else
             {
                 _data.swap(R._data);
+                _pRowSizes.swap(R._pRowSizes); // null unless max layout
             }
         }
 
-- 
2.43.0


From acb467bdd592b97c4c083cb83f951e332f42de84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 08/47] fix: move-assigning to an object pool handle destroyed
 the held object instead of returning it

---
 src/DNDS/ObjectPool.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DNDS/ObjectPool.hpp b/src/DNDS/ObjectPool.hpp
index 35f7b16..40025f0 100644
--- a/src/DNDS/ObjectPool.hpp
+++ b/src/DNDS/ObjectPool.hpp
@@ -54,6 +54,10 @@ namespace DNDS
             }
             void operator=(ObjectPoolAllocated &&R) noexcept
             {
+                if (this == &R)
+                    return;
+                if (auto poolLocked = pool.lock(); poolLocked && _ptr)
+                    poolLocked->recycle(std::move(_ptr)); // give back what this held
                 _ptr = std::move(R._ptr);
                 pool = std::move(R.pool);
             }
-- 
2.43.0


From 4b501e891ef000010d4c3089036d4f10ebfaa2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:39 +0000
Subject: [PATCH 09/47] fix: ArrayEigenMatrix::MatColSize was invalid for fixed
 row count with dynamic column count

---
 src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
index 473e87b..856b40f 100644
--- a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
+++ b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
@@ -88,7 +88,7 @@ namespace DNDS
                 return _mat_nj;
             if constexpr (_mat_nj == NonUniformSize)
                 return this->t_base::RowSize(iMat) / this->MatRowSize(iMat);
-            if constexpr (_mat_ni == DynamicSize)
+            if constexpr (_mat_nj == DynamicSize)
                 return this->t_base::RowSize(iMat) / this->MatRowSize(iMat);
             return UnInitRowsize; // invalid branch
         }
-- 
2.43.0


From 1acda911c3fd68bc0e87bfe9c60ca41b1032e63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:39 +0000
Subject: [PATCH 10/47] fix: resizing a matrix of an ArrayEigenMatrix changed
 the matrix sizes of its copies

---
 src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
index 856b40f..6894ad7 100644
--- a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
+++ b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
@@ -101,7 +101,12 @@ namespace DNDS
         void ResizeRow(index iMat, rowsize nSizeRow, rowsize nSizeCol)
         {
             if constexpr (_mat_ni == NonUniformSize)
-                this->t_base::ResizeRow(iMat, nSizeRow * nSizeCol), (*_mat_nRows)[iMat] = nSizeRow;
+            {
+                this->t_base::ResizeRow(iMat, nSizeRow * nSizeCol);
+                if (_mat_nRows.use_count() > 1) // shared with a copy of this array
+                    _mat_nRows = std::make_shared<typename t_pRowSizes::element_type>(*_mat_nRows);
+                (*_mat_nRows)[iMat] = nSizeRow;
+            }
             else if constexpr (_mat_ni == DynamicSize)
                 DNDS_assert_info(false, "Invalid call");
         }
-- 
2.43.0


From 400c0337bb005f872ee81cf33e857266f1d28adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:39 +0000
Subject: [PATCH 11/47] fix: ArrayEigenMatrix::ResizeMat ignored the request
 when only the column count varies

---
 src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
index 6894ad7..b5b4fce 100644
--- a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
+++ b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
@@ -107,6 +107,11 @@ namespace DNDS
                     _mat_nRows = std::make_shared<typename t_pRowSizes::element_type>(*_mat_nRows);
                 (*_mat_nRows)[iMat] = nSizeRow;
             }
+            else if constexpr (_mat_nj == NonUniformSize)
+            {
+                DNDS_assert(nSizeRow == this->MatRowSize(iMat));
+                this->t_base::ResizeRow(iMat, nSizeRow * nSizeCol);
+            }
             else if constexpr (_mat_ni == DynamicSize)
                 DNDS_assert_info(false, "Invalid call");
         }
-- 
2.43.0


From 86b15acd82e58459bbfa17c3d0c72f86cd5377e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:57 +0000
Subject: [PATCH 12/47] fix: minimum degree reordering read out of range on
 complete graphs

---
 src/Geom/SerialAdjReordering.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/Geom/SerialAdjReordering.hpp b/src/Geom/SerialAdjReordering.hpp
index 6807770..a4e62bf 100644
--- a/src/Geom/SerialAdjReordering.hpp
+++ b/src/Geom/SerialAdjReordering.hpp
@@ -68,14 +68,17 @@ namespace DNDS::Geom
         std::vector<index> localFillOrderingNew2Old, localFillOrderingOld2New;
         using namespace boost;
         using Graph = adjacency_list<vecS, vecS, directedS>;
-        Graph cell2cellG(mat.size());
+        // boost's bucket list has one bucket per vertex, but is probed at (minimum degree + 1), which is out
+        // of range if all vertices are mutually adjacent; one extra isolated vertex keeps it in range
+        const index nVert = size_t_to_signed<index>(mat.size());
+        Graph cell2cellG(nVert + 1);
         const std::vector<std::vector<index>> &cell2cellFaceV = mat;
-        for (index iCell = 0; iCell < size_t_to_signed<index>(mat.size()); iCell++)
+        for (index iCell = 0; iCell < nVert; iCell++)
             for (auto iCOther : cell2cellFaceV[iCell])
                 add_edge(iCell, iCOther, cell2cellG);
-        std::vector<index> supernodeSizes(mat.size(), 1), degree(mat.size(), 0);
-        localFillOrderingNew2Old.resize(mat.size(), 0);
-        localFillOrderingOld2New.resize(mat.size(), 0);
+        std::vector<index> supernodeSizes(nVert + 1, 1), degree(nVert + 1, 0);
+        localFillOrderingNew2Old.resize(nVert + 1, 0);
+        localFillOrderingOld2New.resize(nVert + 1, 0);
         boost::property_map<Graph, vertex_index_t>::type id = get(vertex_index, cell2cellG);
         minimum_degree_ordering(
             cell2cellG,
@@ -85,6 +88,11 @@ namespace DNDS::Geom
             make_iterator_property_map(supernodeSizes.data(), id, supernodeSizes[0]),
             0,
             id);
+        // take the extra vertex out again
+        localFillOrderingNew2Old.erase(std::find(localFillOrderingNew2Old.begin(), localFillOrderingNew2Old.end(), nVert));
+        localFillOrderingOld2New.resize(nVert);
+        for (index i = 0; i < nVert; i++)
+            localFillOrderingOld2New[localFillOrderingNew2Old[i]] = i;
         return {localFillOrderingNew2Old, localFillOrderingOld2New};
     }
 
-- 
2.43.0


From 201cd4e93527e8567f111e2661d688e2421b4701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:32 +0000
Subject: [PATCH 13/47] fix: GMRES dropped the last direction on exact
 breakdown and divided by zero for zero right-hand sides

---
 src/Solver/Linear.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Solver/Linear.hpp b/src/Solver/Linear.hpp
index f7f0169..83d69f4 100644
--- a/src/Solver/Linear.hpp
+++ b/src/Solver/Linear.hpp
@@ -78,9 +78,10 @@ namespace DNDS::Linear
                         Vs[j + 1].addTo(Vs[i], -h(i, j)); // Vs[j + 1] = ML * A * Vs[j] - sum_{i=0,1,...j}(h(i,j) *  Vs[i])
                     }
                     h(j + 1, j) = std::sqrt(fDot(Vs[j + 1], Vs[j + 1])); //
-                    if (h(j + 1, j) < scale_MLb * 1e-32)
+                    if (h(j + 1, j) <= scale_MLb * 1e-32) // scale_MLb could be 0
                     {
                         std::cout << "early stop" << std::endl;
+                        j++; // the space is invariant: column j is complete and Vs[j] is part of the solution
                         break;
                     }
                     Vs[j + 1] *= 1.0 / h(j + 1, j); // normalize
-- 
2.43.0


From f126270d70fbdb2c927330240d8585a4902c45ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:51 +0000
Subject: [PATCH 14/47] fix: BDF StepPP added the residual to itself instead of
 the right-hand side

---
 src/Solver/ODE.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index 9336fac..028fa52 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -456,7 +456,7 @@ namespace DNDS::ODE
                 rhs.addTo(xLast, 1 / dt);
                 resOther = rhs;
                 rhs.addTo(x, -1. / dt);
-                rhs.addTo(rhs, BDFCoefs(kCurrent - 1, 0));
+                rhs.addTo(rhsbuf[0], BDFCoefs(kCurrent - 1, 0));
                 fsolve(x, rhs, resOther, dTau, dt, BDFCoefs(kCurrent - 1, 0), xinc, iter, 1.0, 0);
                 //* xinc = (I/dtau-A*alphaDiag)\rhs
 
-- 
2.43.0


From 86ab9cd5c2343120f37e735bfb1ae00814babd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:51 +0000
Subject: [PATCH 15/47] fix: VBDF StepPP evaluated the right-hand side into a
 buffer it never used

---
 src/Solver/ODE.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index 028fa52..fb0fec8 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -725,7 +725,7 @@ namespace DNDS::ODE
             {
                 fdt(x, dTau, BDFCoefs(0), 0);
 
-                frhs(rhs, x, dTau, iter, 1.0, 0);
+                frhs(rhsbuf[0], x, dTau, iter, 1.0, 0);
 
                 xBase.setConstant(0.0);
                 xBase.addTo(xLast, (BDFCoefs(1) - 0) / dt); // 0 because xBase includes xLast/dt part
-- 
2.43.0


From 921b52178df937acf925dd01c399839b1af32d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:51 +0000
Subject: [PATCH 16/47] fix: VBDF reported the time step residual as its latest
 right-hand side

---
 src/Solver/ODE.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index fb0fec8..423cfd6 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -793,7 +793,7 @@ namespace DNDS::ODE
 
         virtual TDATA &getLatestRHS() override
         {
-            return rhs;
+            return rhsbuf[0];
         }
 
         virtual ~ImplicitVBDFDualTimeStep() = default;
-- 
2.43.0


From 2c8f2097893c3ad5c803cadb7d95383090e3e832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:51 +0000
Subject: [PATCH 17/47] fix: SSPRK3 evaluated its stages at wrong times

---
 src/Solver/ODE.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index 423cfd6..571acea 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -1225,7 +1225,7 @@ namespace DNDS::ODE
             // MPI::Barrier(MPI_COMM_WORLD);
             // std::cout << "fucked" << std::endl;
 
-            frhs(rhs, x, dTau, 1, 0.5, 0);
+            frhs(rhs, x, dTau, 1, 0.0, 0);
             rhsbuf[0] = rhs;
             if (localDtStepping)
                 rhs *= dTau;
@@ -1246,7 +1246,7 @@ namespace DNDS::ODE
             // x.addTo(rhs, 0.25);
             fincrement(x, rhs, 0.25, 0);
 
-            frhs(rhs, x, dTau, 1, 0.25, 0);
+            frhs(rhs, x, dTau, 1, 0.5, 0);
             rhsbuf[2] = rhs;
             if (localDtStepping)
                 rhs *= dTau;
-- 
2.43.0


From 5309ca93798a83a6931b837ffa456d5a2fbaf356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:51 +0000
Subject: [PATCH 18/47] fix: Hermite3 evaluated the mid point of fallback U2R1
 steps at the wrong time

---
 src/Solver/ODE.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index 571acea..7264af2 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -838,6 +838,7 @@ namespace DNDS::ODE
         int nStartIter = 0;
         real thetaM1 = 0.9146;
         real alphaHM3 = 0.5;
+        real alphaHM3Exe = 0.5; // actual position of the mid point in current step
         int maskHM3 = 0;
         int maskHM3Exe = 0;
 
@@ -932,6 +933,7 @@ namespace DNDS::ODE
                 break;
             }
 
+            alphaHM3Exe = alpha;
             wInteg[0] = (-1.0 / 6.0) / alpha + 1.0 / 2.0;
             wInteg[1] = (-1.0 / 6.0) / (alpha * (alpha - 1.0));
             wInteg[2] = 1.0 / (alpha * 6.0 - 6.0) + 1.0 / 2.0;
@@ -1009,12 +1011,12 @@ namespace DNDS::ODE
                                 rhsMid.addTo(rhsbuf[2], thetaCur * wInteg(1));
                             }
                             fdt(xMid, dTau, 1.0, 1);
-                            fsolve(xMid, rhsMid, resOther, dTau, dt, std::abs(thetaCur * wInteg(1)), xinc, iter, alphaHM3, 1);
+                            fsolve(xMid, rhsMid, resOther, dTau, dt, std::abs(thetaCur * wInteg(1)), xinc, iter, alphaHM3Exe, 1);
                         }
 
                         fincrement(xMid, xinc, 1.0, 1);
 
-                        frhs(rhsbuf[2], xMid, dTau, iter, alphaHM3, 1);
+                        frhs(rhsbuf[2], xMid, dTau, iter, alphaHM3Exe, 1);
 
                         rhsFull.setConstant(0.0);
                         {
-- 
2.43.0


From b2990ffddd15174908e6104e272cab7f3fb1c698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:24 +0000
Subject: [PATCH 19/47] fix: HLLC flux was inconsistent on moving faces
 (pressure work used the relative contact speed)

---
 src/Euler/Gas.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Euler/Gas.hpp b/src/Euler/Gas.hpp
index 966e5ae..05a4a45 100644
--- a/src/Euler/Gas.hpp
+++ b/src/Euler/Gas.hpp
@@ -480,11 +480,10 @@ namespace DNDS::Euler::Gas
                   (UL(Eigen::seq(Eigen::fix<1>, Eigen::fix<dim>)).dot(n) - vgN * UL(0)) * (SL - veloLm0) -
                   (UR(Eigen::seq(Eigen::fix<1>, Eigen::fix<dim>)).dot(n) - vgN * UR(0)) * (SR - veloRm0)) /
                  div;
-        //! is this right for moving mesh?
         Eigen::Vector<real, dim + 2> DS;
         DS.setZero();
         DS(Eigen::seq(Eigen::fix<1>, Eigen::fix<dim>)) = n;
-        DS(dim + 1) = SS;
+        DS(dim + 1) = SS + vgN; // SS is relative to the moving face, pressure work uses the absolute velocity
         // SS += sign(SS) * std::exp(-std::abs(SS) / dLambda) * dLambda;
         if (SS >= 0)
         {
-- 
2.43.0


From 017948c73005b80d5d07247953278ecc927f239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:49 +0000
Subject: [PATCH 20/47] fix: HLLC star pressure estimate had the wrong sign,
 colliding states broke the left-right symmetry

---
 src/Euler/Gas.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/Gas.hpp b/src/Euler/Gas.hpp
index 05a4a45..8917a66 100644
--- a/src/Euler/Gas.hpp
+++ b/src/Euler/Gas.hpp
@@ -451,7 +451,7 @@ namespace DNDS::Euler::Gas
                 q = 1;
             return q;
         };
-        real pS = 0.5 * (pLm + pRm) - 0.5 * (veloLm0 - veloRm0) * rhoRoe * aRoe;
+        real pS = 0.5 * (pLm + pRm) - 0.5 * (veloRm0 - veloLm0) * rhoRoe * aRoe;
         pS = std::max(0.0, pS);
         real SL = veloLm0 - std::sqrt(asqrLm) * HLLCq(pLm, pS);
         real SR = veloRm0 + std::sqrt(asqrRm) * HLLCq(pRm, pS);
-- 
2.43.0


From 3240b77b00c6ce86771fbf6148791df304d72e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:49 +0000
Subject: [PATCH 21/47] fix: HLLEP fluxes bounded the fan by absolute wave
 speeds, breaking symmetry and upwinding

---
 src/Euler/Gas.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Euler/Gas.hpp b/src/Euler/Gas.hpp
index 8917a66..72065c3 100644
--- a/src/Euler/Gas.hpp
+++ b/src/Euler/Gas.hpp
@@ -330,8 +330,8 @@ namespace DNDS::Euler::Gas
         // std::cout << alpha.transpose() << std::endl;
         // std::cout << std::endl;
 
-        real SL = std::min(lam0, veloLm0 - std::sqrt(asqrL));
-        real SR = std::max(lam4, veloRm0 + std::sqrt(asqrR));
+        real SL = std::min(veloRoe0 - aRoe, veloLm0 - std::sqrt(asqrL));
+        real SR = std::max(veloRoe0 + aRoe, veloRm0 + std::sqrt(asqrR));
         real UU = std::abs(veloRoe0);
         real dfix = aRoe / (aRoe + UU);
         real SP = std::max(SR, 0.0);
-- 
2.43.0


From 512a8f65c425dd9c345f9aea1c03ea53b7ecacc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:29 +0000
Subject: [PATCH 22/47] fix: HLLC flux depended on the orientation of the face
 when its wave speed estimates cross

---
 src/Euler/Gas.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Euler/Gas.hpp b/src/Euler/Gas.hpp
index 72065c3..23d09df 100644
--- a/src/Euler/Gas.hpp
+++ b/src/Euler/Gas.hpp
@@ -455,6 +455,11 @@ namespace DNDS::Euler::Gas
         pS = std::max(0.0, pS);
         real SL = veloLm0 - std::sqrt(asqrLm) * HLLCq(pLm, pS);
         real SR = veloRm0 + std::sqrt(asqrRm) * HLLCq(pRm, pS);
+        if (SL > SR) // estimates cross for strongly colliding states, then bound the fan by the Roe speeds
+        {
+            SL = std::min(SL, veloRoe0 - aRoe);
+            SR = std::max(SR, veloRoe0 + aRoe);
+        }
 
         dLambda += verySmallReal;
         dLambda *= 2.0;
-- 
2.43.0


From 5b6c51d51dae0876a441cce23351281e85cc2661 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:15:33 +0000
Subject: [PATCH 23/47] fix: BuildVTKConnectivity restarts the connectivity
 list when called again

---
 src/Geom/Mesh_Serial_BuildCell2Cell.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Geom/Mesh_Serial_BuildCell2Cell.cpp b/src/Geom/Mesh_Serial_BuildCell2Cell.cpp
index 7176c5e..48c7f68 100644
--- a/src/Geom/Mesh_Serial_BuildCell2Cell.cpp
+++ b/src/Geom/Mesh_Serial_BuildCell2Cell.cpp
@@ -617,6 +617,7 @@ namespace DNDS::Geom
             vtkCellType[iC] = vtkType;
             vtkCell2nodeOffsets[iC + 1] = vtkCell2nodeOffsets[iC] + vtkC2n.size();
         }
+        vtkCell2node.clear();
         vtkCell2node.reserve(vtkCell2nodeOffsets.back()); // now offsets are local
         for (index iC = 0; iC < cell2node.father->Size(); iC++)
         {
-- 
2.43.0


From db185e8630b22a44cf800c7e9afae33b48117994 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:15:33 +0000
Subject: [PATCH 24/47] fix: periodic de-duplication looks up donor cells by
 the primary vertices of second-order boundary faces

---
 src/Geom/Mesh_Serial_BuildCell2Cell.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Geom/Mesh_Serial_BuildCell2Cell.cpp b/src/Geom/Mesh_Serial_BuildCell2Cell.cpp
index 48c7f68..77ff13a 100644
--- a/src/Geom/Mesh_Serial_BuildCell2Cell.cpp
+++ b/src/Geom/Mesh_Serial_BuildCell2Cell.cpp
@@ -201,8 +201,10 @@ namespace DNDS::Geom
             auto faceID = bndElemInfoSerial->operator()(iBnd, 0).zone;
             if (FaceIDIsPeriodicDonor(faceID))
             {
-                for (auto iNodeFace : (*bnd2nodeSerial)[iBnd])
+                rowsize nVertFace = Elem::Element{bndElemInfoSerial->operator()(iBnd, 0).getElemType()}.GetNumVertices();
+                for (rowsize ib2nV = 0; ib2nV < nVertFace; ib2nV++) // donorNode2Cell only covers primary vertices
                 {
+                    index iNodeFace = (*bnd2nodeSerial)(iBnd, ib2nV);
                     DNDS_assert(donorNode2Cell.count(iNodeFace)); // node 2 cell means all the cells in bound are calculated
                     for (auto iCell : donorNode2Cell[iNodeFace])
                         for (auto iNode : (*bnd2nodeSerial)[iBnd])
-- 
2.43.0


From e01fe3dbf6a400551d45eb9b8c83e87c097797df Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:16:39 +0000
Subject: [PATCH 25/47] fix: the local face adjacency lists a neighbour once
 even if two faces are shared with it

---
 src/Geom/Mesh_Serial_Partition.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Geom/Mesh_Serial_Partition.cpp b/src/Geom/Mesh_Serial_Partition.cpp
index 4f3cc95..a04c255 100644
--- a/src/Geom/Mesh_Serial_Partition.cpp
+++ b/src/Geom/Mesh_Serial_Partition.cpp
@@ -189,8 +189,10 @@ namespace DNDS::Geom
                 for (auto iFace : cell2face[iCell])
                 {
                     index iCellOther = this->CellFaceOther(iCell, iFace);
-                    if (iCellOther != UnInitIndex && iCellOther < this->NumCell()) //! must be local not ghost ptrs
-                        cell2cellFaceV[iCell].push_back(iCellOther);
+                    auto &row = cell2cellFaceV[iCell];
+                    if (iCellOther != UnInitIndex && iCellOther < this->NumCell()    //! must be local not ghost ptrs
+                        && std::find(row.begin(), row.end(), iCellOther) == row.end()) //! periodic neighbours can share two faces
+                        row.push_back(iCellOther);
                 }
             }
         }
-- 
2.43.0


From 88f61ed4ff67c982ef3387a7c21facf9c96d34c0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:21:46 +0000
Subject: [PATCH 26/47] fix: ranks without cells take part in the reductions of
 ObtainLocalFactFillOrdering

---
 src/Geom/Mesh_Serial_Partition.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Geom/Mesh_Serial_Partition.cpp b/src/Geom/Mesh_Serial_Partition.cpp
index a04c255..42850ea 100644
--- a/src/Geom/Mesh_Serial_Partition.cpp
+++ b/src/Geom/Mesh_Serial_Partition.cpp
@@ -230,8 +230,7 @@ namespace DNDS::Geom
         cell2cellFaceVLocal = this->GetCell2CellFaceVLocal();
         auto &localFillOrderingNew2Old = symLU.localFillOrderingNew2Old;
         auto &localFillOrderingOld2New = symLU.localFillOrderingOld2New;
-        if (!this->NumCell())
-            return;
+        const bool hasCell = this->NumCell() > 0; // a rank without cells still takes part in the reductions below
         if (control.getOrderingCode() == -1)
         {
             localFillOrderingNew2Old.reserve(this->NumCell());
@@ -254,6 +253,7 @@ namespace DNDS::Geom
 
             if (mpi.rank == mRank)
                 log() << "UnstructuredMesh::ObtainLocalFactFillOrdering(): start calling metis" << std::endl;
+            if (hasCell)
             {
                 auto [New2Old, Old2New] = ReorderSerialAdj_Metis(cell2cellFaceVLocal);
                 localFillOrderingNew2Old = std::move(New2Old);
@@ -266,6 +266,7 @@ namespace DNDS::Geom
         {
             if (mpi.rank == mRank)
                 log() << "UnstructuredMesh::ObtainLocalFactFillOrdering(): start calling boost::minimum_degree_ordering" << std::endl;
+            if (hasCell)
             {
                 auto [New2Old, Old2New] = ReorderSerialAdj_BoostMMD(cell2cellFaceVLocal);
                 localFillOrderingNew2Old = std::move(New2Old);
@@ -279,6 +280,7 @@ namespace DNDS::Geom
             index bandWidthOld{0}, bandWidthNew{0};
             if (mpi.rank == mRank)
                 log() << "UnstructuredMesh::ObtainLocalFactFillOrdering(): start calling boost::cuthill_mckee_ordering" << std::endl;
+            if (hasCell)
             {
                 auto [New2Old, Old2New] = ReorderSerialAdj_BoostRCM(cell2cellFaceVLocal, bandWidthOld, bandWidthNew);
                 localFillOrderingNew2Old = std::move(New2Old);
@@ -297,6 +299,7 @@ namespace DNDS::Geom
             index bandWidthOld{0}, bandWidthNew{0};
             if (mpi.rank == mRank)
                 log() << "UnstructuredMesh::ObtainLocalFactFillOrdering(): start calling CorrectRCM::CuthillMcKeeOrdering" << std::endl;
+            if (hasCell)
             {
                 auto [New2Old, Old2New] = ReorderSerialAdj_CorrectRCM(cell2cellFaceVLocal, bandWidthOld, bandWidthNew);
                 localFillOrderingNew2Old = std::move(New2Old);
-- 
2.43.0


From 16fbf4a185a99af0bf18a0e4e61f8e3b0df5cf91 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:33:44 +0000
Subject: [PATCH 27/47] fix: IsO1 and IsO2 give the same answer on every rank

---
 src/Geom/Mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Geom/Mesh.cpp b/src/Geom/Mesh.cpp
index 4e9d3f8..19dff85 100644
--- a/src/Geom/Mesh.cpp
+++ b/src/Geom/Mesh.cpp
@@ -453,7 +453,7 @@ namespace DNDS::Geom
         }
         int hasBadAll;
         MPI::Allreduce(&hasBad, &hasBadAll, 1, MPI_INT, MPI_SUM, mpi.comm);
-        return hasBad == 0;
+        return hasBadAll == 0;
     }
 
     bool UnstructuredMesh::IsO2()
@@ -481,7 +481,7 @@ namespace DNDS::Geom
         }
         int hasBadAll;
         MPI::Allreduce(&hasBad, &hasBadAll, 1, MPI_INT, MPI_SUM, mpi.comm);
-        return hasBad == 0;
+        return hasBadAll == 0;
     }
 
     using tIndexMapFunc = std::function<index(index)>;
-- 
2.43.0


From de17c51545e67d9f994e2680debd0840a793e0ed Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:59:11 +0000
Subject: [PATCH 28/47] fix: serializers hold the shared vectors they read
 instead of the address of the caller's pointer

---
 src/DNDS/SerializerH5.cpp   | 8 ++++----
 src/DNDS/SerializerH5.hpp   | 2 +-
 src/DNDS/SerializerJSON.cpp | 8 ++++----
 src/DNDS/SerializerJSON.hpp | 2 +-
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index f26dc23..a1ee081 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -729,12 +729,12 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath])); // ! reform this (and in json counterpart) to use reinterpret_cast or use STL's tools
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             v = std::make_shared<tValue>();
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
 
             size_t size;
             ReadDataVector<index>(refPath, nullptr, size, offset, h5file, reading, "/", mpi, collectiveMetadataRW, collectiveDataRW);
@@ -762,12 +762,12 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath])); // ! reform this (and in json counterpart) to use reinterpret_cast or use STL's tools
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             v = std::make_shared<tValue>();
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
 
             size_t size;
             ReadDataVector<rowsize>(refPath, nullptr, size, offset, h5file, reading, "/", mpi, collectiveMetadataRW, collectiveDataRW);
diff --git a/src/DNDS/SerializerH5.hpp b/src/DNDS/SerializerH5.hpp
index 2e19ccf..fec77bb 100644
--- a/src/DNDS/SerializerH5.hpp
+++ b/src/DNDS/SerializerH5.hpp
@@ -13,7 +13,7 @@ namespace DNDS::Serializer
         std::vector<std::string> cPathSplit;
         std::string cP; // current path
         std::map<void *, std::string> ptr_2_pth;
-        std::map<std::string, void *> pth_2_ssp;
+        std::map<std::string, ssp<void>> pth_2_ssp; // holds the vectors, the caller may drop or reassign its pointer
 
         MPIInfo mpi;
         MPI_Comm commDup{MPI_COMM_NULL};
diff --git a/src/DNDS/SerializerJSON.cpp b/src/DNDS/SerializerJSON.cpp
index 551001b..0f0afa4 100644
--- a/src/DNDS/SerializerJSON.cpp
+++ b/src/DNDS/SerializerJSON.cpp
@@ -207,13 +207,13 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath]));
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             DNDS_assert(jObj[nlohmann::json::json_pointer(refPath)].is_array());
             v = std::make_shared<tValue>(jObj[nlohmann::json::json_pointer(refPath)].get<tValue>()); // vector's copy constructor
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
         }
         offset = ArrayGlobalOffset_Unknown;
     }
@@ -234,13 +234,13 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath]));
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             DNDS_assert(jObj[nlohmann::json::json_pointer(refPath)].is_array());
             v = std::make_shared<tValue>(jObj[nlohmann::json::json_pointer(refPath)].get<tValue>()); // vector's copy constructor
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
         }
         offset = ArrayGlobalOffset_Unknown;
     }
diff --git a/src/DNDS/SerializerJSON.hpp b/src/DNDS/SerializerJSON.hpp
index c09513c..52945bf 100644
--- a/src/DNDS/SerializerJSON.hpp
+++ b/src/DNDS/SerializerJSON.hpp
@@ -15,7 +15,7 @@ namespace DNDS::Serializer
         std::vector<std::string> cPathSplit;
         std::string cP; // current path
         std::map<void *, std::string> ptr_2_pth;
-        std::map<std::string, void *> pth_2_ssp;
+        std::map<std::string, ssp<void>> pth_2_ssp; // holds the vectors, the caller may drop or reassign its pointer
 
         bool useCodecOnUint8{false};
         int deflateLevel{5};
-- 
2.43.0


From 4eac60fbe026b813354adef717d16b7429cd344d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:00:02 +0000
Subject: [PATCH 29/47] fix: serializers keep the shared vectors they wrote
 alive, a reused address made two vectors one

---
 src/DNDS/SerializerH5.cpp   | 12 ++++++------
 src/DNDS/SerializerH5.hpp   |  2 +-
 src/DNDS/SerializerJSON.cpp | 12 ++++++------
 src/DNDS/SerializerJSON.hpp |  2 +-
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index a1ee081..dfa42a9 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -370,26 +370,26 @@ namespace DNDS::Serializer
     }
     void SerializerH5::WriteSharedIndexVector(const std::string &name, const ssp<std::vector<index>> &v, ArrayGlobalOffset offset)
     {
-        index CanNotShare = ptr_2_pth.count(v.get()) ? 0 : 1;
+        index CanNotShare = ptr_2_pth.count(v) ? 0 : 1;
         MPI::AllreduceOneIndex(CanNotShare, MPI_MAX, MPIInfo{commDup, mpi.rank, mpi.size});
         if (!CanNotShare)
-            this->WriteString(name + "::ref", ptr_2_pth[v.get()]);
+            this->WriteString(name + "::ref", ptr_2_pth[v]);
         else
         {
             WriteDataVector<index>(name, v->data(), v->size(), offset, chunksize, deflateLevel, h5file, reading, cP, mpi, commDup, collectiveMetadataRW, collectiveDataRW);
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v] = cP + "/" + name;
         }
     }
     void SerializerH5::WriteSharedRowsizeVector(const std::string &name, const ssp<std::vector<rowsize>> &v, ArrayGlobalOffset offset)
     {
-        index CanNotShare = ptr_2_pth.count(v.get()) ? 0 : 1;
+        index CanNotShare = ptr_2_pth.count(v) ? 0 : 1;
         MPI::AllreduceOneIndex(CanNotShare, MPI_MAX, MPIInfo{commDup, mpi.rank, mpi.size});
         if (!CanNotShare)
-            this->WriteString(name + "::ref", ptr_2_pth[v.get()]);
+            this->WriteString(name + "::ref", ptr_2_pth[v]);
         else
         {
             WriteDataVector<rowsize>(name, v->data(), v->size(), offset, chunksize, deflateLevel, h5file, reading, cP, mpi, commDup, collectiveMetadataRW, collectiveDataRW);
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v] = cP + "/" + name;
         }
     }
 
diff --git a/src/DNDS/SerializerH5.hpp b/src/DNDS/SerializerH5.hpp
index fec77bb..1e64d04 100644
--- a/src/DNDS/SerializerH5.hpp
+++ b/src/DNDS/SerializerH5.hpp
@@ -12,7 +12,7 @@ namespace DNDS::Serializer
         bool reading = true;
         std::vector<std::string> cPathSplit;
         std::string cP; // current path
-        std::map<void *, std::string> ptr_2_pth;
+        std::map<ssp<void>, std::string> ptr_2_pth; // keeps the vectors alive: a freed address could be given to another vector
         std::map<std::string, ssp<void>> pth_2_ssp; // holds the vectors, the caller may drop or reassign its pointer
 
         MPIInfo mpi;
diff --git a/src/DNDS/SerializerJSON.cpp b/src/DNDS/SerializerJSON.cpp
index 0f0afa4..1842c10 100644
--- a/src/DNDS/SerializerJSON.cpp
+++ b/src/DNDS/SerializerJSON.cpp
@@ -125,23 +125,23 @@ namespace DNDS::Serializer
     void SerializerJSON::WriteSharedIndexVector(const std::string &name, const ssp<std::vector<index>> &v, ArrayGlobalOffset offset)
     {
         auto cPointer = nlohmann::json::json_pointer(cP);
-        if (ptr_2_pth.count(v.get()))
-            jObj[cPointer][name]["ref"] = ptr_2_pth[v.get()];
+        if (ptr_2_pth.count(v))
+            jObj[cPointer][name]["ref"] = ptr_2_pth[v];
         else
         {
             jObj[cPointer][name] = *v;
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v] = cP + "/" + name;
         }
     }
     void SerializerJSON::WriteSharedRowsizeVector(const std::string &name, const ssp<std::vector<rowsize>> &v, ArrayGlobalOffset offset)
     {
         auto cPointer = nlohmann::json::json_pointer(cP);
-        if (ptr_2_pth.count(v.get()))
-            jObj[cPointer][name]["ref"] = ptr_2_pth[v.get()];
+        if (ptr_2_pth.count(v))
+            jObj[cPointer][name]["ref"] = ptr_2_pth[v];
         else
         {
             jObj[cPointer][name] = *v;
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v] = cP + "/" + name;
         }
     }
 
diff --git a/src/DNDS/SerializerJSON.hpp b/src/DNDS/SerializerJSON.hpp
index 52945bf..62275df 100644
--- a/src/DNDS/SerializerJSON.hpp
+++ b/src/DNDS/SerializerJSON.hpp
@@ -14,7 +14,7 @@ namespace DNDS::Serializer
         bool reading = true;
         std::vector<std::string> cPathSplit;
         std::string cP; // current path
-        std::map<void *, std::string> ptr_2_pth;
+        std::map<ssp<void>, std::string> ptr_2_pth; // keeps the vectors alive: a freed address could be given to another vector
         std::map<std::string, ssp<void>> pth_2_ssp; // holds the vectors, the caller may drop or reassign its pointer
 
         bool useCodecOnUint8{false};
-- 
2.43.0


From e39d4bf47e398653fbdb1a56fffde06395d1e61d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:11:02 +0000
Subject: [PATCH 30/47] fix: arrays with zero-width rows can be read back
 (division by the row size)

---
 src/DNDS/Array.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/DNDS/Array.hpp b/src/DNDS/Array.hpp
index 7a447e7..3a05aca 100644
--- a/src/DNDS/Array.hpp
+++ b/src/DNDS/Array.hpp
@@ -800,10 +800,11 @@ namespace DNDS
                 Serializer::ArrayGlobalOffset offsetV = Serializer::ArrayGlobalOffset_Unknown; // todo: utilize results from input offset (non CSR) or pRowStart data
                 this->__ReadSerializerData(serializerP, offsetV);
                 if constexpr (_dataLayout == TABLE_StaticFixed || _dataLayout == TABLE_Fixed)
-                {
-                    offsetV.CheckMultipleOf(this->RowSize());
-                    offset = offsetV / this->RowSize(); // to make sure offset in the output is valid (on the elements)
-                }
+                    if (this->RowSize() > 0) // rows without data have no offset to derive
+                    {
+                        offsetV.CheckMultipleOf(this->RowSize());
+                        offset = offsetV / this->RowSize(); // to make sure offset in the output is valid (on the elements)
+                    }
             }
             // TODO: check data validity
 
-- 
2.43.0


From 9eee8cdecaa3df1352b7b27b5cc2932933db3337 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:26:04 +0000
Subject: [PATCH 31/47] fix: vectors stored once (ArrayGlobalOffset_One) can be
 written with deflate

---
 src/DNDS/SerializerH5.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index dfa42a9..b805d38 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -300,7 +300,8 @@ namespace DNDS::Serializer
 
         herr_t herr{0};
         hid_t dxpl_id = H5Pcreate(H5P_DATASET_XFER);
-        if ((offset.isDist() || offset == ArrayGlobalOffset_Parts) && (coll_on_data || deflateLevel > 0)) //! is this necessary?
+        if (deflateLevel > 0 || // filtered datasets can only be written collectively
+            ((offset.isDist() || offset == ArrayGlobalOffset_Parts) && coll_on_data)) //! is this necessary?
             herr = H5Pset_dxpl_mpio(dxpl_id, H5FD_MPIO_COLLECTIVE), H5CHECK_Set;
         else
             herr = H5Pset_dxpl_mpio(dxpl_id, H5FD_MPIO_INDEPENDENT), H5CHECK_Set;
-- 
2.43.0


From fdc6ecc3e30b7b6da6c6191b584e8b896f477238 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:27:59 +0000
Subject: [PATCH 32/47] fix: globally empty vectors can be written with deflate

---
 src/DNDS/SerializerH5.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index b805d38..8f146de 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -269,7 +269,8 @@ namespace DNDS::Serializer
         herr = H5Sclose(fileSpace);
         fileSpace = H5Dget_space(dset_id);
         herr |= H5Sselect_hyperslab(fileSpace, H5S_SELECT_SET, offset.data(), NULL, siz.data(), NULL);
-        herr |= H5Dwrite(dset_id, mem_dataType, memSpace, fileSpace, dxpl_id, buf);
+        if (nGlobal > 0) // nothing to write on any rank; HDF5 fails on empty filtered datasets
+            herr |= H5Dwrite(dset_id, mem_dataType, memSpace, fileSpace, dxpl_id, buf);
         herr |= H5Dclose(dset_id);
         herr |= H5Pclose(dcpl_id);
         herr |= H5Sclose(fileSpace);
-- 
2.43.0


From 2b12c73eb1400f43360326badab07d9a1a241f65 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:29:38 +0000
Subject: [PATCH 33/47] fix: ranks without data take part in collective reads

---
 src/DNDS/SerializerH5.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index 8f146de..689981b 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -496,7 +496,7 @@ namespace DNDS::Serializer
     /**
      * @brief
      *
-     * when #buf == 2, only set nGlobal and dim2
+     * when nLocal < 0, only set nGlobal and dim2
      *
      * @param loc
      * @param name
@@ -532,7 +532,7 @@ namespace DNDS::Serializer
             dim2 = -1;
         nGlobal = sizes[0];
 
-        if (buf != nullptr)
+        if (nLocal >= 0 && nGlobal > 0) // ranks without data have to take part in a collective read
         {
             int rank = dim2 >= 0 ? 2 : 1;
             std::array<hsize_t, 2> offset{hsize_t(nOffset), 0};
@@ -785,7 +785,7 @@ namespace DNDS::Serializer
     void SerializerH5::ReadUint8Array(const std::string &name, uint8_t *data, index &size, ArrayGlobalOffset &offset)
     {
         size_t size_size_t{0};
-        if (data == nullptr)
+        if (data == nullptr && !offset.isDist()) // with the offset known, nullptr is the buffer of an empty part
         {
             ReadDataVector<uint8_t>(name, nullptr, size_size_t, offset, h5file, reading, cP, mpi, collectiveMetadataRW, collectiveDataRW);
             size = size_size_t; // todo: check overflow?
-- 
2.43.0


From 50bc040676bc2509cfa9bc15fa59c8f70d7cf663 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:30:23 +0000
Subject: [PATCH 34/47] fix: empty strings can be written to HDF5 files

---
 src/DNDS/SerializerH5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index 689981b..b902378 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -214,7 +214,7 @@ namespace DNDS::Serializer
             if (coll_on_meta)
                 herr = H5Pset_all_coll_metadata_ops(aapl_id, true), H5CHECK_Set;
             hid_t scalar_space = H5Screate(H5S_SCALAR);
-            hid_t string_type = H5Tcreate(H5T_STRING, v.length());
+            hid_t string_type = H5Tcreate(H5T_STRING, std::max(v.length(), size_t(1))); // an HDF5 string type is not empty
             herr = H5Tset_strpad(string_type, H5T_STR_NULLPAD), H5CHECK_Set;
             hid_t type_attr_id = H5Acreate(group_id, name.c_str(), string_type, scalar_space, H5P_DEFAULT, aapl_id);
             DNDS_assert_info(type_attr_id >= 0, fmt::format("{}, {}, {}", name, v, cP));
-- 
2.43.0


From c6c80e9529a52004e047321f3f19cc8da4375f98 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:31:48 +0000
Subject: [PATCH 35/47] fix: HDF5 shared vectors refer to an earlier entry only
 if all ranks mean the same entry

---
 src/DNDS/SerializerH5.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index b902378..2ff3e55 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -370,11 +370,30 @@ namespace DNDS::Serializer
     {
         WriteAttributeScalar<std::string>(name, v, h5file, reading, cP, collectiveMetadataRW);
     }
+
+    /**
+     * @brief if v is already in the file, under one and the same path on all ranks
+     */
+    static bool isWrittenOnAllRanks(const std::map<ssp<void>, std::string> &ptr_2_pth, const ssp<void> &v, const MPIInfo &mpi)
+    {
+        auto it = ptr_2_pth.find(v);
+        index canNotShare = it == ptr_2_pth.end() ? 1 : 0;
+        MPI::AllreduceOneIndex(canNotShare, MPI_MAX, mpi);
+        if (canNotShare)
+            return false;
+        std::string pathRoot = it->second;
+        index pathSize = pathRoot.size();
+        MPI::Bcast(&pathSize, 1, DNDS_MPI_INDEX, 0, mpi.comm);
+        pathRoot.resize(pathSize);
+        MPI::Bcast(pathRoot.data(), pathSize, MPI_CHAR, 0, mpi.comm);
+        canNotShare = pathRoot != it->second ? 1 : 0;
+        MPI::AllreduceOneIndex(canNotShare, MPI_MAX, mpi);
+        return !canNotShare;
+    }
+
     void SerializerH5::WriteSharedIndexVector(const std::string &name, const ssp<std::vector<index>> &v, ArrayGlobalOffset offset)
     {
-        index CanNotShare = ptr_2_pth.count(v) ? 0 : 1;
-        MPI::AllreduceOneIndex(CanNotShare, MPI_MAX, MPIInfo{commDup, mpi.rank, mpi.size});
-        if (!CanNotShare)
+        if (isWrittenOnAllRanks(ptr_2_pth, v, MPIInfo{commDup, mpi.rank, mpi.size}))
             this->WriteString(name + "::ref", ptr_2_pth[v]);
         else
         {
@@ -384,9 +403,7 @@ namespace DNDS::Serializer
     }
     void SerializerH5::WriteSharedRowsizeVector(const std::string &name, const ssp<std::vector<rowsize>> &v, ArrayGlobalOffset offset)
     {
-        index CanNotShare = ptr_2_pth.count(v) ? 0 : 1;
-        MPI::AllreduceOneIndex(CanNotShare, MPI_MAX, MPIInfo{commDup, mpi.rank, mpi.size});
-        if (!CanNotShare)
+        if (isWrittenOnAllRanks(ptr_2_pth, v, MPIInfo{commDup, mpi.rank, mpi.size}))
             this->WriteString(name + "::ref", ptr_2_pth[v]);
         else
         {
-- 
2.43.0


From ae82c5d9e3474a200c94922dfbdb82267f088d1a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:33:12 +0000
Subject: [PATCH 36/47] fix: arrays of matrices with individual row counts can
 be read back from HDF5 files

---
 src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
index b5b4fce..b51f0d7 100644
--- a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
+++ b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
@@ -223,12 +223,13 @@ namespace DNDS
             if (v_mat_ni == NonUniformSize) // TODO: complete here!
             {
 
+                auto offsetRows = Serializer::ArrayGlobalOffset_Unknown; // not that of the base array's row table
                 if constexpr (_mat_ni == NonUniformSize)
-                    serializerP->ReadSharedRowsizeVector("mat_nRows", _mat_nRows, offset); // TODO: multiple write to offset, check?
+                    serializerP->ReadSharedRowsizeVector("mat_nRows", _mat_nRows, offsetRows); // TODO: multiple write to offset, check?
                 else
                 {
                     t_pRowSizes v_mat_nRows;
-                    serializerP->ReadSharedRowsizeVector("mat_nRows", v_mat_nRows, offset);
+                    serializerP->ReadSharedRowsizeVector("mat_nRows", v_mat_nRows, offsetRows);
                     int c_mat_nRow_dynamic = v_mat_nRows->size() ? 0 : v_mat_nRows->at(0);
                     for (auto i = 0; i < v_mat_nRows->size(); ++i)
                         DNDS_assert(v_mat_nRows->operator[](i) == c_mat_nRow_dynamic);
-- 
2.43.0


From 26b59f8c27ab37f2db441140a075bc04700655b0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:57:17 +0000
Subject: [PATCH 37/47] fix: in-place reconstruction sweeps hand boundary
 functions the whole reconstruction of the cell

---
 src/CFV/VariationalReconstruction_Reconstruction.hxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/CFV/VariationalReconstruction_Reconstruction.hxx b/src/CFV/VariationalReconstruction_Reconstruction.hxx
index 8f6d6eb..b175dd7 100644
--- a/src/CFV/VariationalReconstruction_Reconstruction.hxx
+++ b/src/CFV/VariationalReconstruction_Reconstruction.hxx
@@ -482,6 +482,8 @@ namespace DNDS
             {
                 cellOp(iCell);
                 real relax = cellAtr[iCell].relax;
+                // uRec[iCell] is still needed (boundary values) until all faces have contributed
+                Eigen::Matrix<real, Eigen::Dynamic, nVarsFixed> uRecSOR;
 
                 if (recordInc)
                 {
@@ -491,7 +493,7 @@ namespace DNDS
                         uRecNew[iCell] = uRec[iCell];
                 }
                 else if (settings.SORInstead)
-                    uRec[iCell] = uRec[iCell] * ((recordInc ? 0 : 1) - relax);
+                    uRecSOR = uRec[iCell] * ((recordInc ? 0 : 1) - relax);
                 else
                     uRecNew[iCell] = uRec[iCell] * ((recordInc ? 0 : 1) - relax);
 
@@ -529,7 +531,7 @@ namespace DNDS
                                      vectorAInvBRow[ic2f] * (uOther - u[iCell].transpose()));
                         }
                         else if (settings.SORInstead)
-                            uRec[iCell] +=
+                            uRecSOR +=
                                 relax *
                                 (matrixAAInvBRow[ic2f + 1] * uRecOther +
                                  vectorAInvBRow[ic2f] * (uOther - u[iCell].transpose()));
@@ -552,13 +554,15 @@ namespace DNDS
                                     matrixAAInvBRow[0] * BCC;
                         }
                         else if (settings.SORInstead && !recordInc)
-                            uRec[iCell] +=
+                            uRecSOR +=
                                 relax * matrixAAInvBRow[0] * BCC;
                         else
                             uRecNew[iCell] +=
                                 relax * matrixAAInvBRow[0] * BCC;
                     }
                 }
+                if (settings.SORInstead && !recordInc)
+                    uRec[iCell] = uRecSOR;
                 if ((!uRecNew[iCell].allFinite()) || (!uRec[iCell].allFinite()))
                 {
                     DNDS_assert(false);
-- 
2.43.0


From efa0e8c29f493e4d94b8c001743d7f8a7b764b28 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:57:17 +0000
Subject: [PATCH 38/47] fix: boundary normals of a separate reconstruction
 quadrature have unit length

---
 src/CFV/VariationalReconstruction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CFV/VariationalReconstruction.cpp b/src/CFV/VariationalReconstruction.cpp
index e537fa6..6bb9558 100644
--- a/src/CFV/VariationalReconstruction.cpp
+++ b/src/CFV/VariationalReconstruction.cpp
@@ -786,6 +786,7 @@ namespace DNDS::CFV
                                 tJacobi J = Elem::ShapeJacobianCoordD01Nj(coords, DiNj);
                                 real JDet = JacobiDetFace<dim>(J);
                                 tPoint np = FacialJacobianToNormVec<dim>(J);
+                                np.stableNormalize();
                                 RowVectorXR dbv, dbvD;
                                 dbvD.resize(1, cellAtr[iCell].NDOF);
                                 this->FDiffBaseValue(dbvD, this->GetFacePointFromCell(iFace, iCell, -1, pPhy), iCell, iFace, -2, 0);
-- 
2.43.0


From e90b3c4ea658b4a0fd96d914571903b77cbed44f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:57:17 +0000
Subject: [PATCH 39/47] fix: SOR sweeps on the linearised reconstruction leave
 its solution in place

---
 src/CFV/VariationalReconstruction_Reconstruction.hxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/CFV/VariationalReconstruction_Reconstruction.hxx b/src/CFV/VariationalReconstruction_Reconstruction.hxx
index b175dd7..0c0ac5d 100644
--- a/src/CFV/VariationalReconstruction_Reconstruction.hxx
+++ b/src/CFV/VariationalReconstruction_Reconstruction.hxx
@@ -674,7 +674,8 @@ namespace DNDS
                     iCell = mesh->NumCell() - 1 - iCell;
                 real relax = cellAtr[iCell].relax;
 
-                uRecNew[iCell] = (1 - relax) * uRecNew[iCell] + uRecInc[iCell];
+                // uRecNew[iCell] is still needed (boundary values) until all faces have contributed
+                Eigen::Matrix<real, Eigen::Dynamic, nVarsFixed> uRecSOR = (1 - relax) * uRecNew[iCell] + relax * uRecInc[iCell];
 
                 auto c2f = mesh->cell2face[iCell];
                 auto matrixAAInvBRow = matrixAAInvB[iCell];
@@ -697,15 +698,16 @@ namespace DNDS
                                 (if2c == 0 && Geom::FaceIDIsPeriodicMain(faceID))) // I am main
                                 FTransPeriodicBack(uRecOtherNew, faceID);
                         }
-                        uRecNew[iCell] += relax * matrixAAInvBRow[ic2f + 1] * uRecOtherNew; // mind the sign
+                        uRecSOR += relax * matrixAAInvBRow[ic2f + 1] * uRecOtherNew; // mind the sign
                     }
                     else
                     {
                         Eigen::Matrix<real, Eigen::Dynamic, nVarsFixed> BCC = GetBoundaryRHSDiff(uRec, uRecNew, u, iCell, iFace, FBoundaryDiff);
                         // BCC *= 0;
-                        uRecNew[iCell] += relax * matrixAAInvBRow[0] * BCC; // mind the sign
+                        uRecSOR += relax * matrixAAInvBRow[0] * BCC; // mind the sign
                     }
                 }
+                uRecNew[iCell] = uRecSOR;
             }
         }
     }
-- 
2.43.0


From 8c80cb21d1eef7507e24c94b22a631f09e674394 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:59:53 +0000
Subject: [PATCH 40/47] fix: Green-Gauss penalty of the reconstruction across
 rotational periodic faces

---
 src/CFV/VariationalReconstruction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CFV/VariationalReconstruction.cpp b/src/CFV/VariationalReconstruction.cpp
index 6bb9558..7894e1f 100644
--- a/src/CFV/VariationalReconstruction.cpp
+++ b/src/CFV/VariationalReconstruction.cpp
@@ -1043,8 +1043,10 @@ namespace DNDS::CFV
                                   this->GetIntPointDiffBaseValue(iCellOther, iFace, 1 - if2c, iG, 0, 1); // need 1-if2c!!if2c is for iCell!
                             inc *= settings.functionalSettings.greenGauss1Bias;
                             real dLR = (GetOtherCellBaryFromCell(iCell, iCellOther, iFace) - GetCellBary(iCell)).norm();
+                            tPoint normOutOther = this->GetFaceNormFromCell(iFace, iCellOther, 1 - if2c, iG) *
+                                                  (if2c ? -1 : 1); // same normal, in the frame of iCellOther
                             inc += normOut(Seq012) *
-                                   (normOut(Seq012).transpose() *
+                                   (normOutOther(Seq012).transpose() *
                                     this->GetIntPointDiffBaseValue(iCellOther, iFace, 1 - if2c, iG, Seq123, dim + 1)) *
                                    dLR *
                                    settings.functionalSettings.greenGauss1Penalty;
-- 
2.43.0


From ca57e11b202fc96c4c43e83edb78cf766062c31e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:36:50 +0000
Subject: [PATCH 41/47] fix: viscous gradients of the two-dimensional flow
 model are converted in two dimensions

---
 src/Euler/EulerEvaluator_EvaluateRHS.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/EulerEvaluator_EvaluateRHS.hxx b/src/Euler/EulerEvaluator_EvaluateRHS.hxx
index 40d2f5c..829b725 100644
--- a/src/Euler/EulerEvaluator_EvaluateRHS.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateRHS.hxx
@@ -366,7 +366,7 @@ namespace DNDS::Euler
                                               (unitNorm * (URxyPrim - ULxyPrim).transpose());
                     }
                     else
-                        Gas::GradientCons2Prim_IdealGas(UMeanXy, GradUMeanXy, GradUMeanXyPrim, gamma);
+                        Gas::GradientCons2Prim_IdealGas<dim>(UMeanXy, GradUMeanXy, GradUMeanXyPrim, gamma);
 
 #else
                     TDiffU GradUMeanXy;
-- 
2.43.0


From f8ff8186b60057a3e9ca66b9e6dd82a231c18213 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:40:28 +0000
Subject: [PATCH 42/47] fix: default boundary conditions work in a rotating
 frame

---
 src/Euler/EulerEvaluator_EvaluateDt.hxx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Euler/EulerEvaluator_EvaluateDt.hxx b/src/Euler/EulerEvaluator_EvaluateDt.hxx
index dbdf718..c25a46e 100644
--- a/src/Euler/EulerEvaluator_EvaluateDt.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateDt.hxx
@@ -1509,7 +1509,7 @@ namespace DNDS::Euler
 
                 if (bTypeEuler == EulerBCType::BCFar)
                 {
-                    if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromID(btype, "frameOpt") != 0)
+                    if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromIDSoft(btype, "frameOpt") != 0)
                         far(Seq123) = (Geom::RotateAxis(-settings.frameConstRotation.vOmega() * t) * Geom::ToThreeDim<dim>(far(Seq123)))(Seq012);
                     // std::cout << Geom::RotateAxis(settings.frameConstRotation.vOmega() * t) * Geom::RotateAxis(settings.frameConstRotation.vOmega() * t).transpose() << std::endl;
                     // DNDS_assert(false);
@@ -1863,24 +1863,24 @@ namespace DNDS::Euler
             URxy = ULxy;
             if (geomMode == 0 || true) // now using only the physical mode
             {
-                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromID(btype, "frameOpt") == 0)
+                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromIDSoft(btype, "frameOpt") == 0)
                     this->TransformURotatingFrame_ABS_VELO(URxy, pPhysics, -1);
-                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromID(btype, "frameOpt") != 0)
+                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromIDSoft(btype, "frameOpt") != 0)
                     this->TransformURotatingFrame(URxy, pPhysics, 1);
                 URxy(Seq123) *= -1;
-                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromID(btype, "frameOpt") == 0)
+                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromIDSoft(btype, "frameOpt") == 0)
                     this->TransformURotatingFrame_ABS_VELO(URxy, pPhysics, 1);
-                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromID(btype, "frameOpt") != 0)
+                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromIDSoft(btype, "frameOpt") != 0)
                     this->TransformURotatingFrame(URxy, pPhysics, -1);
             }
             else
             {
                 URxy(Seq123) *= -1;
 #ifdef USE_ABS_VELO_IN_ROTATION
-                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromID(btype, "frameOpt") == 0)
+                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromIDSoft(btype, "frameOpt") == 0)
                     this->TransformVelocityRotatingFrame(URxy, pPhysics, 2);
 #else
-                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromID(btype, "frameOpt") != 0)
+                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromIDSoft(btype, "frameOpt") != 0)
                     this->TransformVelocityRotatingFrame(URxy, pPhysics, -2);
 #endif
             }
@@ -1951,7 +1951,7 @@ namespace DNDS::Euler
                 URxy(Seq123) = pCLDriver->GetAOARotation()(Seq012, Seq012) * URxy(Seq123);
             if (bTypeEuler == EulerBCType::BCFar)
             {
-                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromID(btype, "frameOpt") != 0)
+                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromIDSoft(btype, "frameOpt") != 0)
                     URxy(Seq123) = (Geom::RotateAxis(-settings.frameConstRotation.vOmega() * t) * Geom::ToThreeDim<dim>(URxy(Seq123)))(Seq012);
             }
             if (settings.frameConstRotation.enabled)
-- 
2.43.0


From 75d0771cd4abbc8e66bef3e5a1a5ceea00ad18af Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:40:28 +0000
Subject: [PATCH 43/47] fix: rotated Riemann solver with mean eigenvalues keeps
 the auxiliary flux

---
 src/Euler/EulerEvaluator_EvaluateDt.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/EulerEvaluator_EvaluateDt.hxx b/src/Euler/EulerEvaluator_EvaluateDt.hxx
index c25a46e..c0d51e3 100644
--- a/src/Euler/EulerEvaluator_EvaluateDt.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateDt.hxx
@@ -1201,7 +1201,7 @@ namespace DNDS::Euler
                     Gas::InviscidFlux_IdealGas_Batch_Dispatcher<dim>(
                         rsTypeAux,
                         ULxy, URxy, ULMeanXy, URMeanXy, vgXY, vgC, N1B, N1,
-                        settings.idealGasProperty.gamma, finc, deltaLambdaFace[iFace],
+                        settings.idealGasProperty.gamma, F1, deltaLambdaFace[iFace],
                         exitFun, lam0, lam123, lam4);
                     lam0V1.setConstant(lam0);
                     lam123V1.setConstant(lam123);
-- 
2.43.0


From b795ad869bdeaf39609609fe926a9a37b82f0937 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:40:28 +0000
Subject: [PATCH 44/47] fix: rotated Riemann solver weighs both directions with
 positive factors

---
 src/Euler/EulerEvaluator_EvaluateDt.hxx | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/Euler/EulerEvaluator_EvaluateDt.hxx b/src/Euler/EulerEvaluator_EvaluateDt.hxx
index c0d51e3..6f08388 100644
--- a/src/Euler/EulerEvaluator_EvaluateDt.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateDt.hxx
@@ -1169,9 +1169,17 @@ namespace DNDS::Euler
             {
                 TVec N1 = diffVelo / diffVeloN;
                 DNDS_assert_info(std::abs(N1.norm() - 1) < 1e-5, fmt::format("{}", diffVeloN));
+                if (N1.dot(unitNormC) < 0)
+                    N1 = -N1; // both directions must point along the face norm, or the dissipation gets the wrong sign
+                TVec_Batch N1B;
+                N1B.resizeLike(unitNorm);
+                N1B.colwise() = N1;
                 TReal_Batch N1Proj = N1.transpose() * unitNorm;
+                for (int iB = 0; iB < nB; iB++)
+                    if (N1Proj(iB) < 0)
+                        N1Proj(iB) *= -1, N1B(Eigen::all, iB) *= -1;
 
-                TVec_Batch N2 = unitNorm - N1 * N1Proj;
+                TVec_Batch N2 = unitNorm - (N1B.array().rowwise() * N1Proj.array()).matrix();
                 TReal_Batch N2Proj = N2.colwise().norm().array().max(smallReal * 10);
                 N2.array().rowwise() /= N2Proj.array();
 
@@ -1180,10 +1188,6 @@ namespace DNDS::Euler
                 real N2CProj = std::max(N2C.norm(), smallReal * 10);
                 N2C /= N2CProj;
 
-                TVec_Batch N1B;
-                N1B.resizeLike(N2);
-                N1B.colwise() = N1;
-
                 TReal_Batch lam4V1, lam0V1, lam123V1;
                 lam0V1.resizeLike(lam0V);
                 lam4V1.resizeLike(lam0V);
@@ -1211,7 +1215,7 @@ namespace DNDS::Euler
                     for (int iB = 0; iB < nB; iB++)
                     {
                         RSWrapper_XY(rsTypeAux, ULxy(Eigen::all, iB), URxy(Eigen::all, iB), ULMeanXy, URMeanXy,
-                                     vgXY(Eigen::all, iB), N1,
+                                     vgXY(Eigen::all, iB), N1B(Eigen::all, iB),
                                      settings.idealGasProperty.gamma, F1(Eigen::all, iB), deltaLambdaFace[iFace],
                                      lam0V1(iB), lam123V1(iB), lam4V1(iB));
                     }
-- 
2.43.0


From a6517ab1c7ffffc8c028aa6f773721330100f41d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:08:52 +0000
Subject: [PATCH 45/47] fix: turbulent normal stress acts along the face normal

The two-equation models added 2/3 rho k to the x-momentum flux of each face
and the x-velocity work to its energy flux, whatever the face's normal.
---
 src/Euler/EulerEvaluator_EvaluateDt.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Euler/EulerEvaluator_EvaluateDt.hxx b/src/Euler/EulerEvaluator_EvaluateDt.hxx
index 6f08388..503b9c9 100644
--- a/src/Euler/EulerEvaluator_EvaluateDt.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateDt.hxx
@@ -1288,8 +1288,9 @@ namespace DNDS::Euler
                 ((vnL * ULxy(I4 + 2, Eigen::all).array() + vnR * URxy(I4 + 2, Eigen::all).array()) -
                  (URxy(I4 + 2, Eigen::all).array() - ULxy(I4 + 2, Eigen::all).array()) * lambdaFaceCC.array()) *
                 0.5;
-            finc(1, Eigen::all).array() += UMeanXy(I4 + 1, Eigen::all).array() * (2. / 3.); //! k's normal stress
-            finc(I4, Eigen::all).array() += UMeanXy(I4 + 1, Eigen::all).array() * (2. / 3.) * UMeanXy(1, Eigen::all).array() / UMeanXy(0, Eigen::all).array();
+            finc(Seq123, Eigen::all).array() += unitNorm.array().rowwise() * (UMeanXy(I4 + 1, Eigen::all).array() * (2. / 3.)); //! k's normal stress
+            finc(I4, Eigen::all).array() += UMeanXy(I4 + 1, Eigen::all).array() * (2. / 3.) *
+                                            (UMeanXy(Seq123, Eigen::all).array() * unitNorm.array()).colwise().sum() / UMeanXy(0, Eigen::all).array();
         }
 
 #ifndef DNDS_FV_EULEREVALUATOR_IGNORE_VISCOUS_TERM
-- 
2.43.0


From 8ba0879e6211fa31d896bff81680f7d680060965 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:23:13 +0000
Subject: [PATCH 46/47] fix: direct preconditioner adds up all faces two cells
 share

With periodic boundaries two cells can share several faces; only the last one
entered the off-diagonal block of the factorised matrix.
---
 src/Euler/EulerEvaluator.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/EulerEvaluator.hxx b/src/Euler/EulerEvaluator.hxx
index 367e7aa..c1f3a08 100644
--- a/src/Euler/EulerEvaluator.hxx
+++ b/src/Euler/EulerEvaluator.hxx
@@ -261,7 +261,7 @@ namespace DNDS::Euler
                               mesh->periodicInfo.TransVector<dim, nVarsFixed>(
                                                     jacIJ(Eigen::all, Seq123).transpose(), faceID)
                                   .transpose(); });
-                    jacLU.LDU(iCell, symLU->cell2cellFaceVLocal2FullRowPos[iCell][iC2CInLocal]) =
+                    jacLU.LDU(iCell, symLU->cell2cellFaceVLocal2FullRowPos[iCell][iC2CInLocal]) += //! two cells can share more than one face
                         (0.5 * alphaDiag) * vfv->GetFaceArea(iFace) / vfv->GetCellVol(iCell) * jacIJ;
                 }
             }
-- 
2.43.0


From ead4fedc8a5d269ce7415db8866aa84dfbbfa5b0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:26:47 +0000
Subject: [PATCH 47/47] fix: SGS sweep with reconstruction across rotational
 periodicity, and its reported change

The neighbour's state and increments were used without turning them, and the
change was summed over all ranks but that of this rank was returned.
---
 src/Euler/EulerEvaluator.hxx | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/Euler/EulerEvaluator.hxx b/src/Euler/EulerEvaluator.hxx
index c1f3a08..0e0914a 100644
--- a/src/Euler/EulerEvaluator.hxx
+++ b/src/Euler/EulerEvaluator.hxx
@@ -608,10 +608,13 @@ namespace DNDS::Euler
                     if (iCell != iCellOther)
                     {
                         TU fInc, fIncS;
-                        auto uINCj = uInc[iCellOther];
+                        TU uINCj = uInc[iCellOther];
+                        TU uj = u[iCellOther];
+                        this->UFromOtherCell(uINCj, iFace, iCell, iCellOther, iCellAtFace);
+                        this->UFromOtherCell(uj, iFace, iCell, iCellOther, iCellAtFace);
                         {
                             fInc = fluxJacobian0_Right_Times_du(
-                                u[iCellOther], u[iCell], //! TODO periodic here
+                                uj, u[iCell],
                                 unitNorm, GetFaceVGridFromCell(iFace, iCell, iCellAtFace, -1),
                                 Geom::BC_ID_INTERNAL, uINCj,
                                 lambdaFace[iFace], lambdaFaceC[iFace], lambdaFaceVis[iFace],
@@ -626,10 +629,11 @@ namespace DNDS::Euler
                                     .transpose();
                             TU uRecSRInc =
                                 (vfv->GetIntPointDiffBaseValue(iCellOther, iFace, 1 - iCellAtFace, -1, std::array<int, 1>{0}, 1) *
-                                 uRecInc[iCellOther]) //! TODO periodic here
+                                 uRecInc[iCellOther])
                                     .transpose();
+                            this->UFromOtherCell(uRecSRInc, iFace, iCell, iCellOther, iCellAtFace);
                             TU fIncSL = fluxJacobianC_Right_Times_du(u[iCell], unitNorm, GetFaceVGridFromCell(iFace, iCell, iCellAtFace, -1), Geom::BC_ID_INTERNAL, uRecSLInc);
-                            TU fIncSR = fluxJacobianC_Right_Times_du(u[iCellOther], unitNorm, GetFaceVGridFromCell(iFace, iCell, iCellAtFace, -1), Geom::BC_ID_INTERNAL, uRecSRInc);
+                            TU fIncSR = fluxJacobianC_Right_Times_du(uj, unitNorm, GetFaceVGridFromCell(iFace, iCell, iCellAtFace, -1), Geom::BC_ID_INTERNAL, uRecSRInc);
                             fIncS = fIncSL + fIncSR + lambdaFaceC[iFace] * (uRecSLInc - uRecSRInc);
                         }
 
@@ -665,6 +669,7 @@ namespace DNDS::Euler
         }
         TU sumIncAll(cnvars);
         MPI::Allreduce(sumInc.data(), sumIncAll.data(), sumInc.size(), DNDS_MPI_REAL, MPI_SUM, rhs.father->getMPI().comm);
+        sumInc = sumIncAll;
         DNDS_MPI_InsertCheck(u.father->getMPI(), "UpdateSGS -1");
     }
 
-- 
2.43.0

