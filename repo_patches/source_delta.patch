From d9a5536d5d0138b57a3ea63ee8a8b4928157004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:55 +0000
Subject: [PATCH 01/52] fix: waiting on an in-situ push asserted on ranks that
 nobody pushes to and on a second wait

---
 src/DNDS/ArrayTransformer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index b5fe64e..9c6c88a 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -813,14 +813,14 @@ namespace DNDS
                 if (!PushReqVec->empty())
                     MPI::WaitallAuto(PushReqVec->size(), PushReqVec->data(), PushStatVec.data());
                 auto bufferVec = inSituBuffer.begin();
-                for (MPI_int r = 0; r < mpi.size; r++)
+                for (MPI_int r = 0; r < mpi.size && !inSituBuffer.empty(); r++) // no buffer: nothing was started or already waited
                 {
                     // push
-                    DNDS_assert(bufferVec < inSituBuffer.end());
                     MPI_int pushNumber = pLGhostMapping->pushIndexSizes[r];
                     // std::cout << "PN" << pushNumber << std::endl;
                     if (pushNumber > 0)
                     {
+                        DNDS_assert(bufferVec < inSituBuffer.end());
                         index nPushData = 0;
                         for (index i = 0; i < pushNumber; i++)
                         {
-- 
2.43.0


From 7da3a473954209706de95545d896dd70238d28fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:37 +0000
Subject: [PATCH 02/52] fix: in-situ exchange posted unmatched messages to
 ranks whose rows are all empty

---
 src/DNDS/ArrayTransformer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index 9c6c88a..cab6899 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -631,6 +631,8 @@ namespace DNDS
                         nPushData += nPush;
                     }
                     inSituBuffer.emplace_back(nPushData);
+                    if (nPushData == 0) // all rows empty: the other side sends nothing
+                        continue;
                     PushReqVec->emplace_back(MPI_REQUEST_NULL);
                     MPI_Irecv(inSituBuffer.back().data(), nPushData * father->getTypeMult(), father->getDataType(),
                               r, mpi.rank + r, mpi.comm, &PushReqVec->back());
@@ -741,6 +743,8 @@ namespace DNDS
                         std::copy((*father)[loc], (*father)[loc] + nPush, inSituBuffer.back().begin() + nPushData);
                         nPushData += nPush;
                     }
+                    if (nPushData == 0) // all rows empty: the other side receives nothing
+                        continue;
                     PullReqVec->emplace_back(MPI_REQUEST_NULL);
                     MPI_Issend(inSituBuffer.back().data(), nPushData * father->getTypeMult(), father->getDataType(),
                                r, mpi.rank + r, mpi.comm, &PullReqVec->back());
-- 
2.43.0


From 8656d61785fb2ceb13ffe7937a0f65d419933b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:37 +0000
Subject: [PATCH 03/52] fix: in-situ exchange of padded (max row size) arrays
 packed rows the receiver lays out unpacked

---
 src/DNDS/ArrayTransformer.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index cab6899..bca9a60 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -624,8 +624,8 @@ namespace DNDS
                         index nPush = 0;
                         if constexpr (_dataLayout == CSR)
                             nPush = father->RowSizeField(loc);
-                        if constexpr (isTABLE_Max(_dataLayout)) //! init sizes
-                            nPush = father->RowSize(loc);
+                        if constexpr (isTABLE_Max(_dataLayout)) //! full (padded) rows, as they are laid out in son
+                            nPush = father->RowSizeField();
                         if constexpr (isTABLE_Fixed(_dataLayout))
                             nPush = father->RowSizeField();
                         nPushData += nPush;
@@ -722,8 +722,8 @@ namespace DNDS
                         index nPush = 0;
                         if constexpr (_dataLayout == CSR)
                             nPush = father->RowSizeField(loc);
-                        if constexpr (isTABLE_Max(_dataLayout)) //! init sizes
-                            nPush = father->RowSize(loc);
+                        if constexpr (isTABLE_Max(_dataLayout)) //! full (padded) rows, as they are laid out in son
+                            nPush = father->RowSizeField();
                         if constexpr (isTABLE_Fixed(_dataLayout))
                             nPush = father->RowSizeField();
                         nPushData += nPush;
@@ -736,8 +736,8 @@ namespace DNDS
                         index nPush = 0;
                         if constexpr (_dataLayout == CSR)
                             nPush = father->RowSizeField(loc);
-                        if constexpr (isTABLE_Max(_dataLayout)) //! init sizes
-                            nPush = father->RowSize(loc);
+                        if constexpr (isTABLE_Max(_dataLayout)) //! full (padded) rows, as they are laid out in son
+                            nPush = father->RowSizeField();
                         if constexpr (isTABLE_Fixed(_dataLayout))
                             nPush = father->RowSizeField();
                         std::copy((*father)[loc], (*father)[loc] + nPush, inSituBuffer.back().begin() + nPushData);
@@ -832,8 +832,8 @@ namespace DNDS
                             index nPush = 0;
                             if constexpr (_dataLayout == CSR)
                                 nPush = father->RowSizeField(loc);
-                            if constexpr (isTABLE_Max(_dataLayout)) //! init sizes
-                                nPush = father->RowSize(loc);
+                            if constexpr (isTABLE_Max(_dataLayout)) //! full (padded) rows, as they are laid out in son
+                                nPush = father->RowSizeField();
                             if constexpr (isTABLE_Fixed(_dataLayout))
                                 nPush = father->RowSizeField();
                             std::copy(bufferVec->begin() + nPushData, bufferVec->begin() + nPushData + nPush, (*father)[loc]);
-- 
2.43.0


From f3de43bded88afb7ab1ddfc3f6c142d3279ee81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:32 +0000
Subject: [PATCH 04/52] fix: one-by-one push started the sends before the
 receives it has to match and could deadlock

---
 src/DNDS/ArrayTransformer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index bca9a60..30dfe8a 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -495,7 +495,7 @@ namespace DNDS
                     auto dtypeInfo = (*pPushTypeVec)[ip];
                     MPI_int rankOther = dtypeInfo.first;
                     MPI_int tag = rankOther + mpi.rank;
-                    MPI_Recv_init(father->data(), 1, dtypeInfo.second, rankOther, tag, mpi.comm, PushReqVec->data() + pPullTypeVec->size() + ip);
+                    MPI_Recv_init(father->data(), 1, dtypeInfo.second, rankOther, tag, mpi.comm, PushReqVec->data() + ip); // receives come first, see waitPersistentPush
                     // cascade from father
                     nRecvPushReq++;
                 }
@@ -511,7 +511,7 @@ namespace DNDS
 #else
                     MPI_Bsend_init
 #endif
-                        (son->data(), 1, dtypeInfo.second, rankOther, tag, mpi.comm, PushReqVec->data() + ip);
+                        (son->data(), 1, dtypeInfo.second, rankOther, tag, mpi.comm, PushReqVec->data() + pPushTypeVec->size() + ip);
 
                     // cascade from father
 
-- 
2.43.0


From f92ec23ef51217fcf4fc615a535cd5b78c3f51b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:11 +0000
Subject: [PATCH 05/52] fix: re-initialising persistent exchange waited
 (collectively) only on ranks that have requests

---
 src/DNDS/ArrayTransformer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index 30dfe8a..2bb7737 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -946,13 +946,13 @@ namespace DNDS
         void reInitPersistentPullPush()
         {
             bool clearedPull{false}, clearedPush{false};
-            if (!PullReqVec->empty())
+            if (PullReqVec) // waiting is collective: also on ranks that have no request of their own
             {
                 clearedPull = true;
                 waitPersistentPull();
                 clearPersistentPull();
             }
-            if (!PushReqVec->empty())
+            if (PushReqVec)
             {
                 clearedPush = true;
                 waitPersistentPush();
-- 
2.43.0


From 73b38f049ddf6210016fa3e46e8154448780ad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:08 +0000
Subject: [PATCH 06/52] fix: swapping two padded (max row size) arrays
 exchanged the data but not the row sizes

---
 src/DNDS/Array.hpp | 1628 ++++++++++++++++++++++----------------------
 1 file changed, 815 insertions(+), 813 deletions(-)

diff --git a/src/DNDS/Array.hpp b/src/DNDS/Array.hpp
index 33a4f75..f183308 100644
--- a/src/DNDS/Array.hpp
+++ b/src/DNDS/Array.hpp
@@ -1,813 +1,815 @@
-#pragma once
-#ifndef DNDS_ARRAY_HPP
-#define DNDS_ARRAY_HPP
-
-#include <vector>
-#include <iostream>
-#include <typeinfo>
-#include <utility>
-
-#include <fmt/core.h>
-
-#include "Defines.hpp"
-#include "SerializerBase.hpp"
-#include "SerializerJSON.hpp"
-
-namespace DNDS
-{
-    static const rowsize NoAlign = -1;
-
-    enum DataLayout
-    {
-        ErrorLayout,
-        TABLE_StaticFixed,
-        TABLE_Fixed,
-        TABLE_Max,
-        TABLE_StaticMax,
-        CSR,
-    };
-
-    inline constexpr bool isTABLE(DataLayout lo)
-    {
-        return lo == TABLE_StaticFixed || lo == TABLE_Fixed || lo == TABLE_Max || lo == TABLE_StaticMax;
-    }
-    inline constexpr bool isTABLE_Fixed(DataLayout lo)
-    {
-        return lo == TABLE_StaticFixed || lo == TABLE_Fixed;
-    }
-    inline constexpr bool isTABLE_Max(DataLayout lo)
-    {
-        return lo == TABLE_Max || lo == TABLE_StaticMax;
-    }
-    inline constexpr bool isTABLE_Static(DataLayout lo)
-    {
-        return lo == TABLE_StaticFixed || lo == TABLE_StaticMax;
-    }
-    inline constexpr bool isTABLE_Dynamic(DataLayout lo)
-    {
-        return lo == TABLE_Fixed || lo == TABLE_Max;
-    }
-
-    template <class T>
-    inline constexpr bool array_comp_acceptable()
-    {
-        return std::is_trivially_copyable_v<T> || Meta::is_fixed_data_real_eigen_matrix_v<T>;
-    }
-
-    /**
-     * @brief 2D var-len data container template
-     * @details
-     * ## Array's types
-     * |                         | _row_size>=0                         | _row_size==DynamicSize              | _row_size==NonUniformSize |
-     * | ---                     |          ---                         |                    ---              |                       --- |
-     * |_row_max>=0              |  TABLE_StaticFixed                   |  TABLE_Fixed                        |   TABLE_StaticMax         |
-     * |_row_max==DynamicSize    |  TABLE_StaticFixed _row_max ignored  |  TABLE_Fixed  _row_max ignored      |   TABLE_Max               |
-     * |_row_max==NonUniformSize |  TABLE_StaticFixed _row_max ignored  |  TABLE_Fixed  _row_max ignored      |   CSR                     |
-     *
-     * @todo //TODO implement align feature
-     *
-     *
-     * @tparam T
-     * @tparam _row_size
-     * @tparam _row_max
-     * @tparam _align
-     */
-    template <class T, rowsize _row_size = 1, rowsize _row_max = _row_size, rowsize _align = NoAlign>
-    class Array
-    {
-    public:
-        using value_type = T;
-        using self_type = Array<T, _row_size, _row_max, _align>;
-        static const rowsize al = _align;
-        static const rowsize rs = _row_size;
-        static const rowsize rm = _row_max;
-        static const unsigned sizeof_T = sizeof(value_type);
-
-        static_assert(sizeof_T <= (1024ULL * 1024ULL * 1024ULL), "Row size larger than 1G");
-        static_assert(array_comp_acceptable<T>(), "Do not put in a non trivially copyable type ");
-
-        static_assert(al == NoAlign || al >= 1, "Align bad");
-
-        static const rowsize s_T = al == NoAlign ? sizeof_T : (sizeof_T / al + 1) * al;
-        static_assert(s_T >= sizeof_T && s_T - sizeof_T < (al == NoAlign ? 1 : al), "I1");
-
-        static constexpr DataLayout _GetDataLayout()
-        {
-            if constexpr (rs != DynamicSize && rs != NonUniformSize && rs >= 0)
-                return TABLE_StaticFixed;
-            else if constexpr (rs == DynamicSize)
-                return TABLE_Fixed;
-            else if constexpr (rs == NonUniformSize)
-            {
-                if constexpr (rm == NonUniformSize)
-                    return CSR;
-                else if constexpr (rm == DynamicSize)
-                    return TABLE_Max;
-                else if constexpr (rm >= 0)
-                    return TABLE_StaticMax;
-                else
-                    return ErrorLayout;
-            }
-            else
-                return ErrorLayout;
-        }
-        static const DataLayout _dataLayout = _GetDataLayout();
-        static_assert(_dataLayout != ErrorLayout, "Layout Error");
-        static const bool isCSR = _dataLayout == CSR;
-
-    public:
-        //* compressed data
-        using t_Data = std::vector<value_type>;
-        //* uncompressed data (only for CSR)
-        using t_DataUncompressed = std::vector<std::vector<value_type>>;
-
-        //* non uniform data: CSR
-        using t_RowStart = std::vector<index>;
-        using t_pRowStart = ssp<t_RowStart>;
-
-        //* non uniform-with max data: TABLE
-        using t_RowSizes = std::vector<rowsize>;
-        using t_pRowSizes = ssp<t_RowSizes>;
-
-    private:
-        t_pRowStart _pRowStart; // CSR   in number of T
-        t_pRowSizes _pRowSizes; // TABLE in number of T
-        t_Data _data;
-        t_DataUncompressed _dataUncompressed;
-
-        index _size = 0;               // in number of T
-        rowsize _row_size_dynamic = 0; // in number of T
-    public:
-        t_pRowStart getRowStart() { return _pRowStart; }
-        t_pRowSizes getRowSizes() { return _pRowSizes; }
-
-    public:
-        // default constructor using default:
-        Array() = default;
-        // copy constructor using default;
-        Array(const self_type &R) = default;
-
-        // TODO: constructors
-        // TODO: A indexer-copying build method:
-        // TODO: for CSR: c->c, u->u
-        // TODO: for intertype: CSR->Max, Max->CSR ...
-
-        // read size
-        [[nodiscard]] index Size() const { return _size; }
-
-        [[nodiscard]] rowsize RowSize() const // iRow is actually dummy here
-        {
-            if constexpr (_dataLayout == TABLE_Fixed)
-                return _row_size_dynamic;
-            else if constexpr (_dataLayout == TABLE_StaticFixed)
-                return rs;
-            else
-            {
-                DNDS_assert_info(false, "invalid call");
-                return -1;
-            }
-        }
-
-        [[nodiscard]] rowsize RowSize(index iRow) const
-        {
-            if constexpr (_dataLayout == TABLE_Fixed)
-                return _row_size_dynamic;
-            else if constexpr (_dataLayout == TABLE_StaticFixed)
-                return rs;
-            DNDS_assert_info(iRow < _size && iRow >= 0, "query position out of range");
-            if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax) // TABLE with Max
-            {
-                DNDS_assert_info(_pRowSizes, "_pRowSizes invalid"); // TABLE with Max must have a RowSizes
-                return _pRowSizes->at(iRow);
-            }
-            else if constexpr (_dataLayout == CSR)
-            {
-                if (IfCompressed())
-                {
-                    index pDiff = _pRowStart->at(iRow + 1) - _pRowStart->at(iRow);
-                    DNDS_assert(pDiff < INT32_MAX); // overflow
-                    return static_cast<rowsize>(pDiff);
-                }
-                else
-                {
-                    auto rs_cur = _dataUncompressed.at(iRow).size();
-                    return static_cast<rowsize>(rs_cur);
-                }
-            }
-        }
-
-        [[nodiscard]] rowsize RowSizeMax() const
-        {
-            if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax)
-                return _dataLayout == TABLE_Max ? _row_size_dynamic : rm;
-            else
-                DNDS_assert_info(false, "invalid call");
-        }
-
-        [[nodiscard]] rowsize RowSizeField() const
-        {
-            if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax)
-                return this->RowSizeMax();
-            else if constexpr (_dataLayout == TABLE_Fixed || _dataLayout == TABLE_StaticFixed)
-                return this->RowSize();
-            else
-                DNDS_assert_info(false, "invalid call");
-        }
-
-        [[nodiscard]] rowsize RowSizeField(index iRow)
-        {
-            if constexpr (_dataLayout == CSR)
-                return this->RowSize(iRow);
-            else
-                DNDS_assert_info(false, "invalid call");
-        }
-
-        [[nodiscard]] bool IfCompressed() const
-        {
-
-            if constexpr (_dataLayout == CSR)
-            {
-                if (_size > 0)
-                {
-                    return bool(_pRowStart);
-                }
-                return false; // size 0 array is defined as un-compressed
-            }
-            else
-            {
-                DNDS_assert_info(false, "invalid call");
-                return false;
-            }
-        }
-
-        void CSRDecompress()
-        {
-            if (!IfCompressed())
-                return;
-            _dataUncompressed.resize(_size);
-            for (index i = 0; i < _size; i++)
-            {
-                // _dataUncompressed[i].resize( - _pRowStart->at(i));
-                auto iterStart = _data.begin() + _pRowStart->at(i);
-                auto iterEnd = _data.begin() + _pRowStart->at(i + 1);
-                _dataUncompressed[i].assign(iterStart, iterEnd);
-            }
-            _data.clear();
-            _pRowStart.reset();
-        }
-
-        void CSRCompress()
-        {
-            if (IfCompressed())
-                return;
-            _pRowStart = std::make_shared<
-                typename decltype(_pRowStart)::element_type>(_size + 1, 0);
-            _pRowStart->at(0) = 0;
-            for (index i = 0; i < _size; i++)
-            {
-                index rsI = _pRowStart->at(i);
-                index rsIP = rsI + static_cast<index>(_dataUncompressed.at(i).size());
-                DNDS_assert(rsIP >= rsI);
-                _pRowStart->at(i + 1) = rsIP;
-            }
-            _data.resize(_pRowStart->at(_size));
-            for (index i = 0; i < _size; i++)
-            {
-                // // _dataUncompressed[i].resize( - _pRowStart->at(i));
-                // auto iterStart = _data.begin() + _pRowStart->at(i);
-                // auto iterEnd = _data.begin() + _pRowStart->at(i + 1);
-                // _dataUncompressed[i].assign(iterStart, iterEnd);
-                // _data.push_back(data)
-                memcpy(_data.data() + _pRowStart->at(i), _dataUncompressed[i].data(),
-                       sizeof(T) * _dataUncompressed[i].size());
-                DNDS_assert(_pRowStart->at(i) + _dataUncompressed[i].size() <= _data.size());
-                //! any better way?
-            }
-            _dataUncompressed.clear();
-        }
-
-        void Compress()
-        {
-            if constexpr (_dataLayout == CSR)
-                CSRCompress();
-        }
-        void Decompress()
-        {
-            if constexpr (_dataLayout == CSR)
-                CSRDecompress();
-        }
-
-        t_Data &RawDataVector()
-        {
-            if constexpr (_dataLayout == CSR)
-                DNDS_assert(IfCompressed());
-            return _data;
-        }
-
-        /**
-         * @brief resize invalidates all data and aux, and resets the sizes info to 0 for max
-         *
-         * @param nSize
-         * @param nRow_size_dynamic
-         * @return std::enable_if_t<
-         * _dataLayout == TABLE_Fixed ||
-         * _dataLayout == TABLE_StaticFixed ||
-         * _dataLayout == TABLE_Max ||
-         * _dataLayout == TABLE_StaticMax,
-         * void>
-         */
-        void Resize(index nSize, rowsize nRow_size_dynamic)
-        {
-            if constexpr (_dataLayout == CSR) // to un compressed
-            {
-                DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing");
-                _size = nSize;
-                // _dataUncompressed.resize(nSize, typename decltype(_dataUncompressed)::value_type(nRow_size_dynamic));
-                _dataUncompressed.resize(nSize);
-            }
-            else
-            {
-                _size = nSize;
-                if constexpr (_dataLayout == TABLE_Fixed || _dataLayout == TABLE_Max)
-                    _data.resize(nSize * nRow_size_dynamic), _row_size_dynamic = nRow_size_dynamic;
-                else if constexpr (_dataLayout == TABLE_StaticFixed)
-                    _data.resize(nSize * rs), DNDS_assert(nRow_size_dynamic == rs);
-                else if constexpr (_dataLayout == TABLE_StaticMax)
-                    _data.resize(nSize * rm), DNDS_assert(nRow_size_dynamic == rm);
-
-                if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax)
-                {
-                    if (_pRowSizes.use_count() == 1)
-                        _pRowSizes->resize(nSize, 0);
-                    else
-                        _pRowSizes = std::make_shared<
-                            typename decltype(_pRowSizes)::element_type>(nSize, 0);
-                }
-            }
-        }
-
-        void Resize(index nSize)
-        {
-            if constexpr (_dataLayout == CSR)
-            {
-                DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing");
-                _size = nSize;
-                _dataUncompressed.resize(nSize);
-            }
-            else if constexpr (_dataLayout == TABLE_StaticFixed)
-            {
-                _size = nSize;
-                _data.resize(nSize * rs);
-            }
-            else if constexpr (_dataLayout == TABLE_StaticMax)
-            {
-                _size = nSize;
-                _data.resize(nSize * rm);
-                if (_pRowSizes.use_count() == 1)
-                    _pRowSizes->resize(nSize, 0);
-                else
-                    _pRowSizes = std::make_shared<
-                        typename decltype(_pRowSizes)::element_type>(nSize, 0);
-            }
-            else
-            {
-                DNDS_assert_info(false, "invalid call");
-            }
-        }
-
-        template <class TFRowSize>
-        void Resize(index nSize, TFRowSize &&FRowSize)
-        {
-            if constexpr (_dataLayout == CSR)
-            {
-                _size = nSize;
-                _pRowSizes.reset(), _dataUncompressed.clear(); //*directly to compressed
-                _pRowStart = std::make_shared<typename decltype(_pRowStart)::element_type>(nSize + 1);
-                _pRowStart->operator[](0) = 0;
-                for (index i = 0; i < nSize; i++)
-                    (*_pRowStart)[i + 1] = (*_pRowStart)[i] + FRowSize(i);
-                _data.resize(_pRowStart->at(nSize));
-            }
-            static_assert(_dataLayout == CSR, "Only Non Uniform, CSR for now");
-            static_assert(std::is_invocable_r_v<rowsize, TFRowSize, index>, "Call invalid");
-        }
-
-        /**
-         * @brief resize one row
-         * valid only for non-uniform
-         *
-         * @param iRow
-         * @param nRowSize
-         */
-        void ResizeRow(index iRow, rowsize nRowSize)
-        {
-            if constexpr (_dataLayout == CSR)
-            {
-                DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing row");
-                DNDS_assert_info(iRow < _size && iRow >= 0, "query position out of range");
-                _dataUncompressed.at(iRow).resize(nRowSize);
-            }
-            else if constexpr (_dataLayout == TABLE_Max ||
-                               _dataLayout == TABLE_StaticMax)
-            {
-                DNDS_assert(nRowSize <= (_dataLayout == TABLE_Max ? _row_size_dynamic : rm)); //_row_size_dynamic is max now
-                DNDS_assert_info(iRow < _size && iRow >= 0, "query position out of range");
-                DNDS_assert_info(_pRowSizes, "_pRowSizes invalid");
-                if (_pRowSizes.use_count() > 1) // shared
-                    _pRowSizes = std::make_shared<
-                        typename decltype(_pRowSizes)::element_type>(*_pRowSizes); // copy the row sizes
-                _pRowSizes->at(iRow) = nRowSize;                                   // change
-            }
-            else
-            {
-                DNDS_assert_info(false, "invalid call");
-            }
-        }
-
-        void ReserveRow(index iRow, rowsize nRowSize)
-        {
-            if constexpr (_dataLayout == CSR)
-            {
-                DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing row");
-                DNDS_assert_info(iRow < _size && iRow >= 0, "query position out of range");
-                _dataUncompressed.at(iRow).reserve(nRowSize);
-            }
-            else
-            {
-                DNDS_assert_info(false, "invalid call");
-            }
-        }
-
-        // TODO: Data reference query method and pointer query method
-        // TODO: ? same-size compress for non-uniforms
-
-        const T &at(index iRow, rowsize iCol) const
-        {
-            DNDS_assert_info(iRow < _size && iRow >= 0,
-                             fmt::format(
-                                 "query position i[{}] out of range [0, {}), sig--{}",
-                                 iRow, _size, GetArraySignature()));
-            DNDS_assert_info(iCol < RowSize(iRow) && iCol >= 0,
-                             fmt::format(
-                                 "query position j[{}] out of range [0, {}), sig--{}",
-                                 iCol, RowSize(iRow), GetArraySignature()));
-            if constexpr (_dataLayout == TABLE_StaticFixed)
-                return _data.at(iRow * rs + iCol);
-            else if constexpr (_dataLayout == TABLE_StaticMax)
-                return _data.at(iRow * rm + iCol);
-            else if constexpr (_dataLayout == TABLE_Fixed)
-                return _data.at(iRow * _row_size_dynamic + iCol);
-            else if constexpr (_dataLayout == TABLE_Max)
-                return _data.at(iRow * _row_size_dynamic + iCol);
-            else if constexpr (_dataLayout == CSR)
-            {
-                if (IfCompressed())
-                    return _data.at(_pRowStart->at(iRow) + iCol);
-                else
-                    return _dataUncompressed.at(iRow).at(iCol);
-            }
-            else
-            {
-                DNDS_assert_info(false, "invalid call");
-            }
-        }
-
-        T &operator()(index iRow, rowsize iCol)
-        {
-            return const_cast<T &>(at(iRow, iCol));
-        }
-
-        const T &operator()(index iRow, rowsize iCol) const
-        {
-            return at(iRow, iCol);
-        }
-
-        /**
-         * @brief iRow could be past-the-end to query past-the-end position pointer
-         *
-         * @param iRow
-         * @return T*
-         */
-        T *operator[](index iRow)
-        {
-            DNDS_assert_info(iRow <= _size && iRow >= 0, "query position i out of range");
-            if constexpr (_dataLayout == TABLE_StaticFixed)
-                return _data.data() + iRow * rs;
-            else if constexpr (_dataLayout == TABLE_StaticMax)
-                return _data.data() + iRow * rm;
-            else if constexpr (_dataLayout == TABLE_Fixed)
-                return _data.data() + iRow * _row_size_dynamic;
-            else if constexpr (_dataLayout == TABLE_Max)
-                return _data.data() + iRow * _row_size_dynamic;
-            else if constexpr (_dataLayout == CSR)
-            {
-                if (IfCompressed())
-                    return _data.data() + _pRowStart->at(iRow);
-                else if (this->Size() == 0)
-                {
-                    static_assert(((T *)(NULL) - (T *)(NULL)) == 0);
-                    return (T *)(NULL); // used for past-the-end inquiry of size 0 array
-                }
-                else
-                {
-                    DNDS_assert_info(iRow < _size, "past-the-end query forbidden for CSR uncompressed");
-                    return _dataUncompressed.at(iRow).data();
-                }
-            }
-            else
-            {
-                DNDS_assert_info(false, "invalid call");
-            }
-        }
-
-        const T *operator[](index iRow) const
-        {
-            return static_cast<const T *>(const_cast<self_type *>(this)->operator[](iRow));
-        }
-
-        T *data()
-        {
-            if constexpr (_dataLayout == CSR)
-                DNDS_assert_info(this->IfCompressed(), "CSR must be compressed to get data pointer");
-            return _data.data();
-        }
-
-        size_t DataSize()
-        {
-            if (this->Size() == 0)
-                return 0;
-            if constexpr (_dataLayout == CSR)
-                DNDS_assert_info(this->IfCompressed(), "CSR must be compressed to get data pointer");
-            return _data.size();
-        }
-
-        std::size_t hash()
-        {
-            std::size_t hashData;
-            if constexpr (_dataLayout == CSR)
-            {
-                if (IfCompressed())
-                    hashData = std::hash<decltype(_data)>()(_data);
-                else
-                    hashData = std::hash<decltype(_dataUncompressed)>()(_dataUncompressed);
-            }
-            else
-                hashData = std::hash<decltype(_data)>()(_data);
-            std::size_t hashSize = 0;
-            if (_pRowSizes)
-                hashSize = std::hash<typename decltype(_pRowSizes)::element_type>()(*_pRowSizes);
-            if (_pRowStart)
-                hashSize = std::hash<typename decltype(_pRowStart)::element_type>()(*_pRowStart);
-            return std::hash<std::array<std::size_t, 3>>()(std::array<std::size_t, 3>{std::size_t(_size), hashSize, hashData});
-        }
-
-        friend std::ostream &operator<<(std::ostream &o, const Array<T, _row_size, _row_max, _align> &A)
-        {
-            for (index i = 0; i < A._size; i++)
-            {
-                for (index j = 0; j < A.RowSize(i); j++)
-                    o << A(i, j) << "\t";
-                o << std::endl;
-            }
-            return o;
-        }
-
-        DataLayout GetDataLayout() { return _dataLayout; }
-
-        void CopyData(const self_type &R)
-        {
-            this->operator=(R); // currently ok!
-        }
-
-        void SwapData(self_type &R)
-        {
-            DNDS_assert(R.Size() == this->Size());
-            DNDS_assert(R._data.size() == _data.size());
-            if constexpr (_dataLayout == CSR)
-            {
-                if (IfCompressed())
-                {
-                    _data.swap(R._data);
-                    _pRowStart.swap(R._pRowStart);
-                }
-                else
-                {
-                    _dataUncompressed.swap(R._dataUncompressed);
-                    _pRowSizes.swap(R._pRowSizes);
-                }
-            }
-            else
-            {
-                _data.swap(R._data);
-            }
-        }
-
-        static std::string GetArraySignature()
-        {
-            std::string Layout;
-            if constexpr (_dataLayout == CSR)
-                Layout = "CSR";
-            if constexpr (_dataLayout == TABLE_StaticFixed)
-                Layout = "TABLE_StaticFixed";
-            if constexpr (_dataLayout == TABLE_Fixed)
-                Layout = "TABLE_Fixed";
-            if constexpr (_dataLayout == TABLE_StaticMax)
-                Layout = "TABLE_StaticMax";
-            if constexpr (_dataLayout == TABLE_Max)
-                Layout = "TABLE_Max";
-            return Layout + "__" + std::to_string(sizeof_T) + "_" + std::to_string(_row_size) +
-                   "_" + std::to_string(_row_max) +
-                   "_" + std::to_string(_align);
-        }
-
-        static std::string GetArraySignatureRelaxed()
-        {
-            std::string Layout;
-            if constexpr (_dataLayout == CSR)
-                Layout = "CSR";
-            if constexpr (_dataLayout == TABLE_StaticFixed)
-                Layout = "TABLE_StaticFixed";
-            if constexpr (_dataLayout == TABLE_Fixed)
-                Layout = "TABLE_Fixed";
-            if constexpr (_dataLayout == TABLE_StaticMax)
-                Layout = "TABLE_StaticMax";
-            if constexpr (_dataLayout == TABLE_Max)
-                Layout = "TABLE_Max";
-            return Layout + "__" + std::to_string(sizeof_T) + "_" + std::to_string(-1) +
-                   "_" + std::to_string(-1) +
-                   "_" + std::to_string(_align);
-        }
-
-        std::tuple<int, int, int, int> ParseArraySignatureTuple(const std::string &v)
-        {
-            auto strings = splitSStringClean(v, '_');
-            DNDS_assert(strings.size() == 5 || strings.size() == 6);
-            auto sz = strings.size();
-            return std::make_tuple(std::stoi(strings[sz - 4]), std::stoi(strings[sz - 3]), std::stoi(strings[sz - 2]), std::stoi(strings[sz - 1]));
-        }
-
-        bool ArraySignatureIsCompatible(const std::string &v)
-        {
-            auto [sz, rs, rm, align] = ParseArraySignatureTuple(v);
-            if (sz != sizeof_T)
-                return false;
-            if (rs >= 0 && _row_size >= 0 && rs != _row_size)
-                return false;
-            if (rm >= 0 && _row_max >= 0 && rm != _row_max)
-                return false;
-            return true;
-        }
-
-        void __WriteSerializerData(const Serializer::SerializerBaseSSP &serializerP, Serializer::ArrayGlobalOffset offset)
-        {
-            auto treatAsBytes = [&]()
-            { serializerP->WriteUint8Array("data", (uint8_t *)_data.data(), _data.size() * sizeof_T, offset * sizeof_T); };
-            if constexpr (std::is_same_v<T, index>)
-                serializerP->WriteIndexVector("data", _data, offset);
-            else if constexpr (std::is_same_v<T, real>)
-            {
-                if (!std::dynamic_pointer_cast<Serializer::SerializerJSON>(serializerP))
-                    serializerP->WriteRealVector("data", _data, offset);
-                else
-                    treatAsBytes();
-            }
-            else
-                treatAsBytes();
-        }
-
-        void __ReadSerializerData(const Serializer::SerializerBaseSSP &serializerP, Serializer::ArrayGlobalOffset &offset)
-        {
-            auto treatAsBytes = [&]()
-            {
-                index bufferSize{0};
-                serializerP->ReadUint8Array("data", nullptr, bufferSize, offset);
-                DNDS_assert(bufferSize % sizeof_T == 0);
-                _data.resize(bufferSize / sizeof_T);
-                serializerP->ReadUint8Array("data", (uint8_t *)_data.data(), bufferSize, offset);
-                offset.CheckMultipleOf(sizeof_T);
-                offset = offset / sizeof_T;
-            };
-
-            if constexpr (std::is_same_v<T, index>)
-                serializerP->ReadIndexVector("data", _data, offset);
-            else if constexpr (std::is_same_v<T, real>)
-            {
-                if (!std::dynamic_pointer_cast<Serializer::SerializerJSON>(serializerP))
-                    serializerP->ReadRealVector("data", _data, offset);
-                else
-                    treatAsBytes();
-            }
-            else
-                treatAsBytes();
-        }
-
-        void WriteSerializer(Serializer::SerializerBaseSSP serializerP, const std::string &name, Serializer::ArrayGlobalOffset offset)
-        {
-            auto cwd = serializerP->GetCurrentPath();
-            serializerP->CreatePath(name);
-            serializerP->GoToPath(name);
-
-            serializerP->WriteString("array_sig", this->GetArraySignature());
-            serializerP->WriteString("array_type", typeid(self_type).name());
-            if (serializerP->IsPerRank())
-                serializerP->WriteIndex("size", _size);
-            else
-            {
-                std::vector<index> _size_vv;
-                _size_vv.push_back(_size);
-                serializerP->WriteIndexVectorPerRank("size", _size_vv);
-            }
-            serializerP->WriteInt("row_size_dynamic", _row_size_dynamic);
-            // if (_size == 0) //! cannot do this, collective calls!
-            //     return;
-            if constexpr (_dataLayout == CSR)
-            {
-                if (!this->IfCompressed())
-                    this->Compress();
-                serializerP->WriteSharedIndexVector("pRowStart", _pRowStart, offset);
-            }
-            else if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax)
-            {
-                serializerP->WriteSharedRowsizeVector("pRowSizes", _pRowSizes, offset);
-            }
-            else // fixed
-            {
-            }
-            // doing data
-            this->__WriteSerializerData(serializerP, offset);
-
-            serializerP->GoToPath(cwd);
-        }
-
-        void ReadSerializer(Serializer::SerializerBaseSSP serializerP, const std::string &name, Serializer::ArrayGlobalOffset &offset)
-        {
-            auto cwd = serializerP->GetCurrentPath();
-            // serializerP->CreatePath(name); //! if you create, all data will be erased
-            serializerP->GoToPath(name);
-
-            std::string array_sigRead;
-            serializerP->ReadString("array_sig", array_sigRead);
-            //! TODO: parse the sizes and correctly handle dynamic reading
-            DNDS_assert_info(array_sigRead == this->GetArraySignature() || ArraySignatureIsCompatible(array_sigRead),
-                             array_sigRead + ", i am : " + this->GetArraySignature());
-            auto [szR, rsR, rmR, align] = ParseArraySignatureTuple(array_sigRead);
-            if (_row_size != rsR)
-            {
-                if (_row_size == NonUniformSize || rsR == NonUniformSize)
-                    DNDS_assert_info(false, "can't handle here");
-            }
-            if (serializerP->IsPerRank())
-                serializerP->ReadIndex("size", _size);
-            else
-            {
-                std::vector<index> _size_vv;
-                Serializer::ArrayGlobalOffset offsetV = Serializer::ArrayGlobalOffset_Unknown;
-                serializerP->ReadIndexVector("size", _size_vv, offsetV);
-                DNDS_assert(_size_vv.size() == 1);
-                _size = _size_vv.front();
-            }
-            serializerP->ReadInt("row_size_dynamic", _row_size_dynamic);
-            if (_row_size >= 0) // TODO: fix this! need full conversion check (maybe just a casting)
-            {
-                if (rsR == DynamicSize)
-                    DNDS_assert(_row_size_dynamic == _row_size), _row_size_dynamic = 0;
-                else if (rsR >= 0)
-                    DNDS_assert(rsR == _row_size), _row_size_dynamic = 0;
-            }
-            if (_row_size == DynamicSize && rsR >= 0)
-                _row_size_dynamic = rsR;
-            if (_row_max == DynamicSize && rmR >= 0)
-                _row_size_dynamic = rmR; // TODO: fix this! need a _row_max_dynamic ?
-            // if (_size == 0) //! cannot do this, collective calls!
-            //     return;
-            if constexpr (_dataLayout == CSR)
-            {
-                serializerP->ReadSharedIndexVector("pRowStart", _pRowStart, offset);
-                // todo: make the data inside the file correspond to full disp? is that necessary?
-            }
-            else if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax)
-            {
-                serializerP->ReadSharedRowsizeVector("pRowSizes", _pRowSizes, offset);
-            }
-            else // fixed
-            {
-            }
-            // doing data
-            {
-                Serializer::ArrayGlobalOffset offsetV = Serializer::ArrayGlobalOffset_Unknown; // todo: utilize results from input offset (non CSR) or pRowStart data
-                this->__ReadSerializerData(serializerP, offsetV);
-                if constexpr (_dataLayout == TABLE_StaticFixed || _dataLayout == TABLE_Fixed)
-                {
-                    offsetV.CheckMultipleOf(this->RowSize());
-                    offset = offsetV / this->RowSize(); // to make sure offset in the output is valid (on the elements)
-                }
-            }
-            // TODO: check data validity
-
-            serializerP->GoToPath(cwd);
-        }
-    };
-
-}
-
-#endif
+#pragma once
+#ifndef DNDS_ARRAY_HPP
+#define DNDS_ARRAY_HPP
+
+#include <vector>
+#include <iostream>
+#include <typeinfo>
+#include <utility>
+
+#include <fmt/core.h>
+
+#include "Defines.hpp"
+#include "SerializerBase.hpp"
+#include "SerializerJSON.hpp"
+
+namespace DNDS
+{
+    static const rowsize NoAlign = -1;
+
+    enum DataLayout
+    {
+        ErrorLayout,
+        TABLE_StaticFixed,
+        TABLE_Fixed,
+        TABLE_Max,
+        TABLE_StaticMax,
+        CSR,
+    };
+
+    inline constexpr bool isTABLE(DataLayout lo)
+    {
+        return lo == TABLE_StaticFixed || lo == TABLE_Fixed || lo == TABLE_Max || lo == TABLE_StaticMax;
+    }
+    inline constexpr bool isTABLE_Fixed(DataLayout lo)
+    {
+        return lo == TABLE_StaticFixed || lo == TABLE_Fixed;
+    }
+    inline constexpr bool isTABLE_Max(DataLayout lo)
+    {
+        return lo == TABLE_Max || lo == TABLE_StaticMax;
+    }
+    inline constexpr bool isTABLE_Static(DataLayout lo)
+    {
+        return lo == TABLE_StaticFixed || lo == TABLE_StaticMax;
+    }
+    inline constexpr bool isTABLE_Dynamic(DataLayout lo)
+    {
+        return lo == TABLE_Fixed || lo == TABLE_Max;
+    }
+
+    template <class T>
+    inline constexpr bool array_comp_acceptable()
+    {
+        return std::is_trivially_copyable_v<T> || Meta::is_fixed_data_real_eigen_matrix_v<T>;
+    }
+
+    /**
+     * @brief 2D var-len data container template
+     * @details
+     * ## Array's types
+     * |                         | _row_size>=0                         | _row_size==DynamicSize              | _row_size==NonUniformSize |
+     * | ---                     |          ---                         |                    ---              |                       --- |
+     * |_row_max>=0              |  TABLE_StaticFixed                   |  TABLE_Fixed                        |   TABLE_StaticMax         |
+     * |_row_max==DynamicSize    |  TABLE_StaticFixed _row_max ignored  |  TABLE_Fixed  _row_max ignored      |   TABLE_Max               |
+     * |_row_max==NonUniformSize |  TABLE_StaticFixed _row_max ignored  |  TABLE_Fixed  _row_max ignored      |   CSR                     |
+     *
+     * @todo //TODO implement align feature
+     *
+     *
+     * @tparam T
+     * @tparam _row_size
+     * @tparam _row_max
+     * @tparam _align
+     */
+    template <class T, rowsize _row_size = 1, rowsize _row_max = _row_size, rowsize _align = NoAlign>
+    class Array
+    {
+    public:
+        using value_type = T;
+        using self_type = Array<T, _row_size, _row_max, _align>;
+        static const rowsize al = _align;
+        static const rowsize rs = _row_size;
+        static const rowsize rm = _row_max;
+        static const unsigned sizeof_T = sizeof(value_type);
+
+        static_assert(sizeof_T <= (1024ULL * 1024ULL * 1024ULL), "Row size larger than 1G");
+        static_assert(array_comp_acceptable<T>(), "Do not put in a non trivially copyable type ");
+
+        static_assert(al == NoAlign || al >= 1, "Align bad");
+
+        static const rowsize s_T = al == NoAlign ? sizeof_T : (sizeof_T / al + 1) * al;
+        static_assert(s_T >= sizeof_T && s_T - sizeof_T < (al == NoAlign ? 1 : al), "I1");
+
+        static constexpr DataLayout _GetDataLayout()
+        {
+            if constexpr (rs != DynamicSize && rs != NonUniformSize && rs >= 0)
+                return TABLE_StaticFixed;
+            else if constexpr (rs == DynamicSize)
+                return TABLE_Fixed;
+            else if constexpr (rs == NonUniformSize)
+            {
+                if constexpr (rm == NonUniformSize)
+                    return CSR;
+                else if constexpr (rm == DynamicSize)
+                    return TABLE_Max;
+                else if constexpr (rm >= 0)
+                    return TABLE_StaticMax;
+                else
+                    return ErrorLayout;
+            }
+            else
+                return ErrorLayout;
+        }
+        static const DataLayout _dataLayout = _GetDataLayout();
+        static_assert(_dataLayout != ErrorLayout, "Layout Error");
+        static const bool isCSR = _dataLayout == CSR;
+
+    public:
+        //* compressed data
+        using t_Data = std::vector<value_type>;
+        //* uncompressed data (only for CSR)
+        using t_DataUncompressed = std::vector<std::vector<value_type>>;
+
+        //* non uniform data: CSR
+        using t_RowStart = std::vector<index>;
+        using t_pRowStart = ssp<t_RowStart>;
+
+        //* non uniform-with max data: TABLE
+        using t_RowSizes = std::vector<rowsize>;
+        using t_pRowSizes = ssp<t_RowSizes>;
+
+    private:
+        t_pRowStart _pRowStart; // CSR   in number of T
+        t_pRowSizes _pRowSizes; // TABLE in number of T
+        t_Data _data;
+        t_DataUncompressed _dataUncompressed;
+
+        index _size = 0;               // in number of T
+        rowsize _row_size_dynamic = 0; // in number of T
+    public:
+        t_pRowStart getRowStart() { return _pRowStart; }
+        t_pRowSizes getRowSizes() { return _pRowSizes; }
+
+    public:
+        // default constructor using default:
+        Array() = default;
+        // copy constructor using default;
+        Array(const self_type &R) = default;
+
+        // TODO: constructors
+        // TODO: A indexer-copying build method:
+        // TODO: for CSR: c->c, u->u
+        // TODO: for intertype: CSR->Max, Max->CSR ...
+
+        // read size
+        [[nodiscard]] index Size() const { return _size; }
+
+        [[nodiscard]] rowsize RowSize() const // iRow is actually dummy here
+        {
+            if constexpr (_dataLayout == TABLE_Fixed)
+                return _row_size_dynamic;
+            else if constexpr (_dataLayout == TABLE_StaticFixed)
+                return rs;
+            else
+            {
+                DNDS_assert_info(false, "invalid call");
+                return -1;
+            }
+        }
+
+        [[nodiscard]] rowsize RowSize(index iRow) const
+        {
+            if constexpr (_dataLayout == TABLE_Fixed)
+                return _row_size_dynamic;
+            else if constexpr (_dataLayout == TABLE_StaticFixed)
+                return rs;
+            DNDS_assert_info(iRow < _size && iRow >= 0, "query position out of range");
+            if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax) // TABLE with Max
+            {
+                DNDS_assert_info(_pRowSizes, "_pRowSizes invalid"); // TABLE with Max must have a RowSizes
+                return _pRowSizes->at(iRow);
+            }
+            else if constexpr (_dataLayout == CSR)
+            {
+                if (IfCompressed())
+                {
+                    index pDiff = _pRowStart->at(iRow + 1) - _pRowStart->at(iRow);
+                    DNDS_assert(pDiff < INT32_MAX); // overflow
+                    return static_cast<rowsize>(pDiff);
+                }
+                else
+                {
+                    auto rs_cur = _dataUncompressed.at(iRow).size();
+                    return static_cast<rowsize>(rs_cur);
+                }
+            }
+        }
+
+        [[nodiscard]] rowsize RowSizeMax() const
+        {
+            if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax)
+                return _dataLayout == TABLE_Max ? _row_size_dynamic : rm;
+            else
+                DNDS_assert_info(false, "invalid call");
+        }
+
+        [[nodiscard]] rowsize RowSizeField() const
+        {
+            if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax)
+                return this->RowSizeMax();
+            else if constexpr (_dataLayout == TABLE_Fixed || _dataLayout == TABLE_StaticFixed)
+                return this->RowSize();
+            else
+                DNDS_assert_info(false, "invalid call");
+        }
+
+        [[nodiscard]] rowsize RowSizeField(index iRow)
+        {
+            if constexpr (_dataLayout == CSR)
+                return this->RowSize(iRow);
+            else
+                DNDS_assert_info(false, "invalid call");
+        }
+
+        [[nodiscard]] bool IfCompressed() const
+        {
+
+            if constexpr (_dataLayout == CSR)
+            {
+                if (_size > 0)
+                {
+                    return bool(_pRowStart);
+                }
+                return false; // size 0 array is defined as un-compressed
+            }
+            else
+            {
+                DNDS_assert_info(false, "invalid call");
+                return false;
+            }
+        }
+
+        void CSRDecompress()
+        {
+            if (!IfCompressed())
+                return;
+            _dataUncompressed.resize(_size);
+            for (index i = 0; i < _size; i++)
+            {
+                // _dataUncompressed[i].resize( - _pRowStart->at(i));
+                auto iterStart = _data.begin() + _pRowStart->at(i);
+                auto iterEnd = _data.begin() + _pRowStart->at(i + 1);
+                _dataUncompressed[i].assign(iterStart, iterEnd);
+            }
+            _data.clear();
+            _pRowStart.reset();
+        }
+
+        void CSRCompress()
+        {
+            if (IfCompressed())
+                return;
+            _pRowStart = std::make_shared<
+                typename decltype(_pRowStart)::element_type>(_size + 1, 0);
+            _pRowStart->at(0) = 0;
+            for (index i = 0; i < _size; i++)
+            {
+                index rsI = _pRowStart->at(i);
+                index rsIP = rsI + static_cast<index>(_dataUncompressed.at(i).size());
+                DNDS_assert(rsIP >= rsI);
+                _pRowStart->at(i + 1) = rsIP;
+            }
+            _data.resize(_pRowStart->at(_size));
+            for (index i = 0; i < _size; i++)
+            {
+                // // _dataUncompressed[i].resize( - _pRowStart->at(i));
+                // auto iterStart = _data.begin() + _pRowStart->at(i);
+                // auto iterEnd = _data.begin() + _pRowStart->at(i + 1);
+                // _dataUncompressed[i].assign(iterStart, iterEnd);
+                // _data.push_back(data)
+                memcpy(_data.data() + _pRowStart->at(i), _dataUncompressed[i].data(),
+                       sizeof(T) * _dataUncompressed[i].size());
+                DNDS_assert(_pRowStart->at(i) + _dataUncompressed[i].size() <= _data.size());
+                //! any better way?
+            }
+            _dataUncompressed.clear();
+        }
+
+        void Compress()
+        {
+            if constexpr (_dataLayout == CSR)
+                CSRCompress();
+        }
+        void Decompress()
+        {
+            if constexpr (_dataLayout == CSR)
+                CSRDecompress();
+        }
+
+        t_Data &RawDataVector()
+        {
+            if constexpr (_dataLayout == CSR)
+                DNDS_assert(IfCompressed());
+            return _data;
+        }
+
+        /**
+         * @brief resize invalidates all data and aux, and resets the sizes info to 0 for max
+         *
+         * @param nSize
+         * @param nRow_size_dynamic
+         * @return std::enable_if_t<
+         * _dataLayout == TABLE_Fixed ||
+         * _dataLayout == TABLE_StaticFixed ||
+         * _dataLayout == TABLE_Max ||
+         * _dataLayout == TABLE_StaticMax,
+         * void>
+         */
+        void Resize(index nSize, rowsize nRow_size_dynamic)
+        {
+            if constexpr (_dataLayout == CSR) // to un compressed
+            {
+                DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing");
+                _size = nSize;
+                // _dataUncompressed.resize(nSize, typename decltype(_dataUncompressed)::value_type(nRow_size_dynamic));
+                _dataUncompressed.resize(nSize);
+            }
+            else
+            {
+                _size = nSize;
+                if constexpr (_dataLayout == TABLE_Fixed || _dataLayout == TABLE_Max)
+                    _data.resize(nSize * nRow_size_dynamic), _row_size_dynamic = nRow_size_dynamic;
+                else if constexpr (_dataLayout == TABLE_StaticFixed)
+                    _data.resize(nSize * rs), DNDS_assert(nRow_size_dynamic == rs);
+                else if constexpr (_dataLayout == TABLE_StaticMax)
+                    _data.resize(nSize * rm), DNDS_assert(nRow_size_dynamic == rm);
+
+                if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax)
+                {
+                    if (_pRowSizes.use_count() == 1)
+                        _pRowSizes->resize(nSize, 0);
+                    else
+                        _pRowSizes = std::make_shared<
+                            typename decltype(_pRowSizes)::element_type>(nSize, 0);
+                }
+            }
+        }
+
+        void Resize(index nSize)
+        {
+            if constexpr (_dataLayout == CSR)
+            {
+                DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing");
+                _size = nSize;
+                _dataUncompressed.resize(nSize);
+            }
+            else if constexpr (_dataLayout == TABLE_StaticFixed)
+            {
+                _size = nSize;
+                _data.resize(nSize * rs);
+            }
+            else if constexpr (_dataLayout == TABLE_StaticMax)
+            {
+                _size = nSize;
+                _data.resize(nSize * rm);
+                if (_pRowSizes.use_count() == 1)
+                    _pRowSizes->resize(nSize, 0);
+                else
+                    _pRowSizes = std::make_shared<
+                        typename decltype(_pRowSizes)::element_type>(nSize, 0);
+            }
+            else
+            {
+                DNDS_assert_info(false, "invalid call");
+            }
+        }
+
+        template <class TFRowSize>
+        void Resize(index nSize, TFRowSize &&FRowSize)
+        {
+            if constexpr (_dataLayout == CSR)
+            {
+                _size = nSize;
+                _pRowSizes.reset(), _dataUncompressed.clear(); //*directly to compressed
+                _pRowStart = std::make_shared<typename decltype(_pRowStart)::element_type>(nSize + 1);
+                _pRowStart->operator[](0) = 0;
+                for (index i = 0; i < nSize; i++)
+                    (*_pRowStart)[i + 1] = (*_pRowStart)[i] + FRowSize(i);
+                _data.resize(_pRowStart->at(nSize));
+            }
+            static_assert(_dataLayout == CSR, "Only Non Uniform, CSR for now");
+            static_assert(std::is_invocable_r_v<rowsize, TFRowSize, index>, "Call invalid");
+        }
+
+        /**
+         * @brief resize one row
+         * valid only for non-uniform
+         *
+         * @param iRow
+         * @param nRowSize
+         */
+        void ResizeRow(index iRow, rowsize nRowSize)
+        {
+            if constexpr (_dataLayout == CSR)
+            {
+                DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing row");
+                DNDS_assert_info(iRow < _size && iRow >= 0, "query position out of range");
+                _dataUncompressed.at(iRow).resize(nRowSize);
+            }
+            else if constexpr (_dataLayout == TABLE_Max ||
+                               _dataLayout == TABLE_StaticMax)
+            {
+                DNDS_assert(nRowSize <= (_dataLayout == TABLE_Max ? _row_size_dynamic : rm)); //_row_size_dynamic is max now
+                DNDS_assert_info(iRow < _size && iRow >= 0, "query position out of range");
+                DNDS_assert_info(_pRowSizes, "_pRowSizes invalid");
+                if (_pRowSizes.use_count() > 1) // shared
+                    _pRowSizes = std::make_shared<
+                        typename decltype(_pRowSizes)::element_type>(*_pRowSizes); // copy the row sizes
+                _pRowSizes->at(iRow) = nRowSize;                                   // change
+            }
+            else
+            {
+                DNDS_assert_info(false, "invalid call");
+            }
+        }
+
+        void ReserveRow(index iRow, rowsize nRowSize)
+        {
+            if constexpr (_dataLayout == CSR)
+            {
+                DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing row");
+                DNDS_assert_info(iRow < _size && iRow >= 0, "query position out of range");
+                _dataUncompressed.at(iRow).reserve(nRowSize);
+            }
+            else
+            {
+                DNDS_assert_info(false, "invalid call");
+            }
+        }
+
+        // TODO: Data reference query method and pointer query method
+        // TODO: ? same-size compress for non-uniforms
+
+        const T &at(index iRow, rowsize iCol) const
+        {
+            DNDS_assert_info(iRow < _size && iRow >= 0,
+                             fmt::format(
+                                 "query position i[{}] out of range [0, {}), sig--{}",
+                                 iRow, _size, GetArraySignature()));
+            DNDS_assert_info(iCol < RowSize(iRow) && iCol >= 0,
+                             fmt::format(
+                                 "query position j[{}] out of range [0, {}), sig--{}",
+                                 iCol, RowSize(iRow), GetArraySignature()));
+            if constexpr (_dataLayout == TABLE_StaticFixed)
+                return _data.at(iRow * rs + iCol);
+            else if constexpr (_dataLayout == TABLE_StaticMax)
+                return _data.at(iRow * rm + iCol);
+            else if constexpr (_dataLayout == TABLE_Fixed)
+                return _data.at(iRow * _row_size_dynamic + iCol);
+            else if constexpr (_dataLayout == TABLE_Max)
+                return _data.at(iRow * _row_size_dynamic + iCol);
+            else if constexpr (_dataLayout == CSR)
+            {
+                if (IfCompressed())
+                    return _data.at(_pRowStart->at(iRow) + iCol);
+                else
+                    return _dataUncompressed.at(iRow).at(iCol);
+            }
+            else
+            {
+                DNDS_assert_info(false, "invalid call");
+            }
+        }
+
+        T &operator()(index iRow, rowsize iCol)
+        {
+            return const_cast<T &>(at(iRow, iCol));
+        }
+
+        const T &operator()(index iRow, rowsize iCol) const
+        {
+            return at(iRow, iCol);
+        }
+
+        /**
+         * @brief iRow could be past-the-end to query past-the-end position pointer
+         *
+         * @param iRow
+         * @return T*
+         */
+        T *operator[](index iRow)
+        {
+            DNDS_assert_info(iRow <= _size && iRow >= 0, "query position i out of range");
+            if constexpr (_dataLayout == TABLE_StaticFixed)
+                return _data.data() + iRow * rs;
+            else if constexpr (_dataLayout == TABLE_StaticMax)
+                return _data.data() + iRow * rm;
+            else if constexpr (_dataLayout == TABLE_Fixed)
+                return _data.data() + iRow * _row_size_dynamic;
+            else if constexpr (_dataLayout == TABLE_Max)
+                return _data.data() + iRow * _row_size_dynamic;
+            else if constexpr (_dataLayout == CSR)
+            {
+                if (IfCompressed())
+                    return _data.data() + _pRowStart->at(iRow);
+                else if (this->Size() == 0)
+                {
+                    static_assert(((T *)(NULL) - (T *)(NULL)) == 0);
+                    return (T *)(NULL); // used for past-the-end inquiry of size 0 array
+                }
+                else
+                {
+                    DNDS_assert_info(iRow < _size, "past-the-end query forbidden for CSR uncompressed");
+                    return _dataUncompressed.at(iRow).data();
+                }
+            }
+            else
+            {
+                DNDS_assert_info(false, "invalid call");
+            }
+        }
+
+        const T *operator[](index iRow) const
+        {
+            return static_cast<const T *>(const_cast<self_type *>(this)->operator[](iRow));
+        }
+
+        T *data()
+        {
+            if constexpr (_dataLayout == CSR)
+                DNDS_assert_info(this->IfCompressed(), "CSR must be compressed to get data pointer");
+            return _data.data();
+        }
+
+        size_t DataSize()
+        {
+            if (this->Size() == 0)
+                return 0;
+            if constexpr (_dataLayout == CSR)
+                DNDS_assert_info(this->IfCompressed(), "CSR must be compressed to get data pointer");
+            return _data.size();
+        }
+
+        std::size_t hash()
+        {
+            std::size_t hashData;
+            if constexpr (_dataLayout == CSR)
+            {
+                if (IfCompressed())
+                    hashData = std::hash<decltype(_data)>()(_data);
+                else
+                    hashData = std::hash<decltype(_dataUncompressed)>()(_dataUncompressed);
+            }
+            else
+                hashData = std::hash<decltype(_data)>()(_data);
+            std::size_t hashSize = 0;
+            if (_pRowSizes)
+                hashSize = std::hash<typename decltype(_pRowSizes)::element_type>()(*_pRowSizes);
+            if (_pRowStart)
+                hashSize = std::hash<typename decltype(_pRowStart)::element_type>()(*_pRowStart);
+            return std::hash<std::array<std::size_t, 3>>()(std::array<std::size_t, 3>{std::size_t(_size), hashSize, hashData});
+        }
+
+        friend std::ostream &operator<<(std::ostream &o, const Array<T, _row_size, _row_max, _align> &A)
+        {
+            for (index i = 0; i < A._size; i++)
+            {
+                for (index j = 0; j < A.RowSize(i); j++)
+                    o << A(i, j) << "\t";
+                o << std::endl;
+            }
+            return o;
+        }
+
+        DataLayout GetDataLayout() { return _dataLayout; }
+
+        void CopyData(const self_type &R)
+        {
+            this->operator=(R); // currently ok!
+        }
+
+        void SwapData(self_type &R)
+        {
+            DNDS_assert(R.Size() == this->Size());
+            DNDS_assert(R._data.size() == _data.size());
+            if constexpr (_dataLayout == CSR)
+            {
+                if (IfCompressed())
+                {
+                    _data.swap(R._data);
+                    _pRowStart.swap(R._pRowStart);
+                }
+                else
+                {
+                    _dataUncompressed.swap(R._dataUncompressed);
+                    _pRowSizes.swap(R._pRowSizes);
+                }
+            }
+            else
+            {
+                _data.swap(R._data);
+                _pRowSizes.swap(R._pRowSizes); // row sizes (padded layouts) belong to the data
+                std::swap(_row_size_dynamic, R._row_size_dynamic);
+            }
+        }
+
+        static std::string GetArraySignature()
+        {
+            std::string Layout;
+            if constexpr (_dataLayout == CSR)
+                Layout = "CSR";
+            if constexpr (_dataLayout == TABLE_StaticFixed)
+                Layout = "TABLE_StaticFixed";
+            if constexpr (_dataLayout == TABLE_Fixed)
+                Layout = "TABLE_Fixed";
+            if constexpr (_dataLayout == TABLE_StaticMax)
+                Layout = "TABLE_StaticMax";
+            if constexpr (_dataLayout == TABLE_Max)
+                Layout = "TABLE_Max";
+            return Layout + "__" + std::to_string(sizeof_T) + "_" + std::to_string(_row_size) +
+                   "_" + std::to_string(_row_max) +
+                   "_" + std::to_string(_align);
+        }
+
+        static std::string GetArraySignatureRelaxed()
+        {
+            std::string Layout;
+            if constexpr (_dataLayout == CSR)
+                Layout = "CSR";
+            if constexpr (_dataLayout == TABLE_StaticFixed)
+                Layout = "TABLE_StaticFixed";
+            if constexpr (_dataLayout == TABLE_Fixed)
+                Layout = "TABLE_Fixed";
+            if constexpr (_dataLayout == TABLE_StaticMax)
+                Layout = "TABLE_StaticMax";
+            if constexpr (_dataLayout == TABLE_Max)
+                Layout = "TABLE_Max";
+            return Layout + "__" + std::to_string(sizeof_T) + "_" + std::to_string(-1) +
+                   "_" + std::to_string(-1) +
+                   "_" + std::to_string(_align);
+        }
+
+        std::tuple<int, int, int, int> ParseArraySignatureTuple(const std::string &v)
+        {
+            auto strings = splitSStringClean(v, '_');
+            DNDS_assert(strings.size() == 5 || strings.size() == 6);
+            auto sz = strings.size();
+            return std::make_tuple(std::stoi(strings[sz - 4]), std::stoi(strings[sz - 3]), std::stoi(strings[sz - 2]), std::stoi(strings[sz - 1]));
+        }
+
+        bool ArraySignatureIsCompatible(const std::string &v)
+        {
+            auto [sz, rs, rm, align] = ParseArraySignatureTuple(v);
+            if (sz != sizeof_T)
+                return false;
+            if (rs >= 0 && _row_size >= 0 && rs != _row_size)
+                return false;
+            if (rm >= 0 && _row_max >= 0 && rm != _row_max)
+                return false;
+            return true;
+        }
+
+        void __WriteSerializerData(const Serializer::SerializerBaseSSP &serializerP, Serializer::ArrayGlobalOffset offset)
+        {
+            auto treatAsBytes = [&]()
+            { serializerP->WriteUint8Array("data", (uint8_t *)_data.data(), _data.size() * sizeof_T, offset * sizeof_T); };
+            if constexpr (std::is_same_v<T, index>)
+                serializerP->WriteIndexVector("data", _data, offset);
+            else if constexpr (std::is_same_v<T, real>)
+            {
+                if (!std::dynamic_pointer_cast<Serializer::SerializerJSON>(serializerP))
+                    serializerP->WriteRealVector("data", _data, offset);
+                else
+                    treatAsBytes();
+            }
+            else
+                treatAsBytes();
+        }
+
+        void __ReadSerializerData(const Serializer::SerializerBaseSSP &serializerP, Serializer::ArrayGlobalOffset &offset)
+        {
+            auto treatAsBytes = [&]()
+            {
+                index bufferSize{0};
+                serializerP->ReadUint8Array("data", nullptr, bufferSize, offset);
+                DNDS_assert(bufferSize % sizeof_T == 0);
+                _data.resize(bufferSize / sizeof_T);
+                serializerP->ReadUint8Array("data", (uint8_t *)_data.data(), bufferSize, offset);
+                offset.CheckMultipleOf(sizeof_T);
+                offset = offset / sizeof_T;
+            };
+
+            if constexpr (std::is_same_v<T, index>)
+                serializerP->ReadIndexVector("data", _data, offset);
+            else if constexpr (std::is_same_v<T, real>)
+            {
+                if (!std::dynamic_pointer_cast<Serializer::SerializerJSON>(serializerP))
+                    serializerP->ReadRealVector("data", _data, offset);
+                else
+                    treatAsBytes();
+            }
+            else
+                treatAsBytes();
+        }
+
+        void WriteSerializer(Serializer::SerializerBaseSSP serializerP, const std::string &name, Serializer::ArrayGlobalOffset offset)
+        {
+            auto cwd = serializerP->GetCurrentPath();
+            serializerP->CreatePath(name);
+            serializerP->GoToPath(name);
+
+            serializerP->WriteString("array_sig", this->GetArraySignature());
+            serializerP->WriteString("array_type", typeid(self_type).name());
+            if (serializerP->IsPerRank())
+                serializerP->WriteIndex("size", _size);
+            else
+            {
+                std::vector<index> _size_vv;
+                _size_vv.push_back(_size);
+                serializerP->WriteIndexVectorPerRank("size", _size_vv);
+            }
+            serializerP->WriteInt("row_size_dynamic", _row_size_dynamic);
+            // if (_size == 0) //! cannot do this, collective calls!
+            //     return;
+            if constexpr (_dataLayout == CSR)
+            {
+                if (!this->IfCompressed())
+                    this->Compress();
+                serializerP->WriteSharedIndexVector("pRowStart", _pRowStart, offset);
+            }
+            else if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax)
+            {
+                serializerP->WriteSharedRowsizeVector("pRowSizes", _pRowSizes, offset);
+            }
+            else // fixed
+            {
+            }
+            // doing data
+            this->__WriteSerializerData(serializerP, offset);
+
+            serializerP->GoToPath(cwd);
+        }
+
+        void ReadSerializer(Serializer::SerializerBaseSSP serializerP, const std::string &name, Serializer::ArrayGlobalOffset &offset)
+        {
+            auto cwd = serializerP->GetCurrentPath();
+            // serializerP->CreatePath(name); //! if you create, all data will be erased
+            serializerP->GoToPath(name);
+
+            std::string array_sigRead;
+            serializerP->ReadString("array_sig", array_sigRead);
+            //! TODO: parse the sizes and correctly handle dynamic reading
+            DNDS_assert_info(array_sigRead == this->GetArraySignature() || ArraySignatureIsCompatible(array_sigRead),
+                             array_sigRead + ", i am : " + this->GetArraySignature());
+            auto [szR, rsR, rmR, align] = ParseArraySignatureTuple(array_sigRead);
+            if (_row_size != rsR)
+            {
+                if (_row_size == NonUniformSize || rsR == NonUniformSize)
+                    DNDS_assert_info(false, "can't handle here");
+            }
+            if (serializerP->IsPerRank())
+                serializerP->ReadIndex("size", _size);
+            else
+            {
+                std::vector<index> _size_vv;
+                Serializer::ArrayGlobalOffset offsetV = Serializer::ArrayGlobalOffset_Unknown;
+                serializerP->ReadIndexVector("size", _size_vv, offsetV);
+                DNDS_assert(_size_vv.size() == 1);
+                _size = _size_vv.front();
+            }
+            serializerP->ReadInt("row_size_dynamic", _row_size_dynamic);
+            if (_row_size >= 0) // TODO: fix this! need full conversion check (maybe just a casting)
+            {
+                if (rsR == DynamicSize)
+                    DNDS_assert(_row_size_dynamic == _row_size), _row_size_dynamic = 0;
+                else if (rsR >= 0)
+                    DNDS_assert(rsR == _row_size), _row_size_dynamic = 0;
+            }
+            if (_row_size == DynamicSize && rsR >= 0)
+                _row_size_dynamic = rsR;
+            if (_row_max == DynamicSize && rmR >= 0)
+                _row_size_dynamic = rmR; // TODO: fix this! need a _row_max_dynamic ?
+            // if (_size == 0) //! cannot do this, collective calls!
+            //     return;
+            if constexpr (_dataLayout == CSR)
+            {
+                serializerP->ReadSharedIndexVector("pRowStart", _pRowStart, offset);
+                // todo: make the data inside the file correspond to full disp? is that necessary?
+            }
+            else if constexpr (_dataLayout == TABLE_Max || _dataLayout == TABLE_StaticMax)
+            {
+                serializerP->ReadSharedRowsizeVector("pRowSizes", _pRowSizes, offset);
+            }
+            else // fixed
+            {
+            }
+            // doing data
+            {
+                Serializer::ArrayGlobalOffset offsetV = Serializer::ArrayGlobalOffset_Unknown; // todo: utilize results from input offset (non CSR) or pRowStart data
+                this->__ReadSerializerData(serializerP, offsetV);
+                if constexpr (_dataLayout == TABLE_StaticFixed || _dataLayout == TABLE_Fixed)
+                {
+                    offsetV.CheckMultipleOf(this->RowSize());
+                    offset = offsetV / this->RowSize(); // to make sure offset in the output is valid (on the elements)
+                }
+            }
+            // TODO: check data validity
+
+            serializerP->GoToPath(cwd);
+        }
+    };
+
+}
+
+#endif
-- 
2.43.0


From 29dc221f30cb2505610fdf2b82a32b15ecfef62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:46 +0000
Subject: [PATCH 07/52] fix: a CSR array compressed while empty claimed to be
 compressed after being resized

---
 src/DNDS/Array.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DNDS/Array.hpp b/src/DNDS/Array.hpp
index f183308..c50bbf7 100644
--- a/src/DNDS/Array.hpp
+++ b/src/DNDS/Array.hpp
@@ -321,6 +321,7 @@ namespace DNDS
             if constexpr (_dataLayout == CSR) // to un compressed
             {
                 DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing");
+                _pRowStart.reset(); // could be left from compressing while the size was 0
                 _size = nSize;
                 // _dataUncompressed.resize(nSize, typename decltype(_dataUncompressed)::value_type(nRow_size_dynamic));
                 _dataUncompressed.resize(nSize);
@@ -351,6 +352,7 @@ namespace DNDS
             if constexpr (_dataLayout == CSR)
             {
                 DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing");
+                _pRowStart.reset(); // could be left from compressing while the size was 0
                 _size = nSize;
                 _dataUncompressed.resize(nSize);
             }
-- 
2.43.0


From 2ac5bc0f431cde6883e55f8d449cdd9800b93764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:11 +0000
Subject: [PATCH 08/52] fix: resizing a matrix in a copy of a matrix array
 changed the row counts of the original

---
 src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
index 473e87b..53e8cf9 100644
--- a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
+++ b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
@@ -101,7 +101,12 @@ namespace DNDS
         void ResizeRow(index iMat, rowsize nSizeRow, rowsize nSizeCol)
         {
             if constexpr (_mat_ni == NonUniformSize)
-                this->t_base::ResizeRow(iMat, nSizeRow * nSizeCol), (*_mat_nRows)[iMat] = nSizeRow;
+            {
+                this->t_base::ResizeRow(iMat, nSizeRow * nSizeCol);
+                if (_mat_nRows.use_count() > 1) // shared with a copy
+                    _mat_nRows = std::make_shared<typename t_pRowSizes::element_type>(*_mat_nRows);
+                (*_mat_nRows)[iMat] = nSizeRow;
+            }
             else if constexpr (_mat_ni == DynamicSize)
                 DNDS_assert_info(false, "Invalid call");
         }
-- 
2.43.0


From ac2aabdf8407780b6940e313e69bb9dd4e777956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:09 +0000
Subject: [PATCH 09/52] fix: serializers kept raw addresses of shared vectors
 and used them after the vectors or the readers' pointers were gone

---
 src/DNDS/SerializerH5.cpp   | 20 ++++++++++----------
 src/DNDS/SerializerH5.hpp   |  4 ++--
 src/DNDS/SerializerJSON.cpp | 20 ++++++++++----------
 src/DNDS/SerializerJSON.hpp |  4 ++--
 4 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index f26dc23..dfa42a9 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -370,26 +370,26 @@ namespace DNDS::Serializer
     }
     void SerializerH5::WriteSharedIndexVector(const std::string &name, const ssp<std::vector<index>> &v, ArrayGlobalOffset offset)
     {
-        index CanNotShare = ptr_2_pth.count(v.get()) ? 0 : 1;
+        index CanNotShare = ptr_2_pth.count(v) ? 0 : 1;
         MPI::AllreduceOneIndex(CanNotShare, MPI_MAX, MPIInfo{commDup, mpi.rank, mpi.size});
         if (!CanNotShare)
-            this->WriteString(name + "::ref", ptr_2_pth[v.get()]);
+            this->WriteString(name + "::ref", ptr_2_pth[v]);
         else
         {
             WriteDataVector<index>(name, v->data(), v->size(), offset, chunksize, deflateLevel, h5file, reading, cP, mpi, commDup, collectiveMetadataRW, collectiveDataRW);
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v] = cP + "/" + name;
         }
     }
     void SerializerH5::WriteSharedRowsizeVector(const std::string &name, const ssp<std::vector<rowsize>> &v, ArrayGlobalOffset offset)
     {
-        index CanNotShare = ptr_2_pth.count(v.get()) ? 0 : 1;
+        index CanNotShare = ptr_2_pth.count(v) ? 0 : 1;
         MPI::AllreduceOneIndex(CanNotShare, MPI_MAX, MPIInfo{commDup, mpi.rank, mpi.size});
         if (!CanNotShare)
-            this->WriteString(name + "::ref", ptr_2_pth[v.get()]);
+            this->WriteString(name + "::ref", ptr_2_pth[v]);
         else
         {
             WriteDataVector<rowsize>(name, v->data(), v->size(), offset, chunksize, deflateLevel, h5file, reading, cP, mpi, commDup, collectiveMetadataRW, collectiveDataRW);
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v] = cP + "/" + name;
         }
     }
 
@@ -729,12 +729,12 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath])); // ! reform this (and in json counterpart) to use reinterpret_cast or use STL's tools
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             v = std::make_shared<tValue>();
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
 
             size_t size;
             ReadDataVector<index>(refPath, nullptr, size, offset, h5file, reading, "/", mpi, collectiveMetadataRW, collectiveDataRW);
@@ -762,12 +762,12 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath])); // ! reform this (and in json counterpart) to use reinterpret_cast or use STL's tools
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             v = std::make_shared<tValue>();
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
 
             size_t size;
             ReadDataVector<rowsize>(refPath, nullptr, size, offset, h5file, reading, "/", mpi, collectiveMetadataRW, collectiveDataRW);
diff --git a/src/DNDS/SerializerH5.hpp b/src/DNDS/SerializerH5.hpp
index 2e19ccf..1ef8cf8 100644
--- a/src/DNDS/SerializerH5.hpp
+++ b/src/DNDS/SerializerH5.hpp
@@ -12,8 +12,8 @@ namespace DNDS::Serializer
         bool reading = true;
         std::vector<std::string> cPathSplit;
         std::string cP; // current path
-        std::map<void *, std::string> ptr_2_pth;
-        std::map<std::string, void *> pth_2_ssp;
+        std::map<ssp<void>, std::string> ptr_2_pth; // holds what was written: an address must not be reused meanwhile
+        std::map<std::string, ssp<void>> pth_2_ssp; // holds what was read: the reader's own pointer may go away
 
         MPIInfo mpi;
         MPI_Comm commDup{MPI_COMM_NULL};
diff --git a/src/DNDS/SerializerJSON.cpp b/src/DNDS/SerializerJSON.cpp
index 551001b..1842c10 100644
--- a/src/DNDS/SerializerJSON.cpp
+++ b/src/DNDS/SerializerJSON.cpp
@@ -125,23 +125,23 @@ namespace DNDS::Serializer
     void SerializerJSON::WriteSharedIndexVector(const std::string &name, const ssp<std::vector<index>> &v, ArrayGlobalOffset offset)
     {
         auto cPointer = nlohmann::json::json_pointer(cP);
-        if (ptr_2_pth.count(v.get()))
-            jObj[cPointer][name]["ref"] = ptr_2_pth[v.get()];
+        if (ptr_2_pth.count(v))
+            jObj[cPointer][name]["ref"] = ptr_2_pth[v];
         else
         {
             jObj[cPointer][name] = *v;
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v] = cP + "/" + name;
         }
     }
     void SerializerJSON::WriteSharedRowsizeVector(const std::string &name, const ssp<std::vector<rowsize>> &v, ArrayGlobalOffset offset)
     {
         auto cPointer = nlohmann::json::json_pointer(cP);
-        if (ptr_2_pth.count(v.get()))
-            jObj[cPointer][name]["ref"] = ptr_2_pth[v.get()];
+        if (ptr_2_pth.count(v))
+            jObj[cPointer][name]["ref"] = ptr_2_pth[v];
         else
         {
             jObj[cPointer][name] = *v;
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v] = cP + "/" + name;
         }
     }
 
@@ -207,13 +207,13 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath]));
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             DNDS_assert(jObj[nlohmann::json::json_pointer(refPath)].is_array());
             v = std::make_shared<tValue>(jObj[nlohmann::json::json_pointer(refPath)].get<tValue>()); // vector's copy constructor
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
         }
         offset = ArrayGlobalOffset_Unknown;
     }
@@ -234,13 +234,13 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath]));
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             DNDS_assert(jObj[nlohmann::json::json_pointer(refPath)].is_array());
             v = std::make_shared<tValue>(jObj[nlohmann::json::json_pointer(refPath)].get<tValue>()); // vector's copy constructor
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
         }
         offset = ArrayGlobalOffset_Unknown;
     }
diff --git a/src/DNDS/SerializerJSON.hpp b/src/DNDS/SerializerJSON.hpp
index c09513c..edc69a3 100644
--- a/src/DNDS/SerializerJSON.hpp
+++ b/src/DNDS/SerializerJSON.hpp
@@ -14,8 +14,8 @@ namespace DNDS::Serializer
         bool reading = true;
         std::vector<std::string> cPathSplit;
         std::string cP; // current path
-        std::map<void *, std::string> ptr_2_pth;
-        std::map<std::string, void *> pth_2_ssp;
+        std::map<ssp<void>, std::string> ptr_2_pth; // holds what was written: an address must not be reused meanwhile
+        std::map<std::string, ssp<void>> pth_2_ssp; // holds what was read: the reader's own pointer may go away
 
         bool useCodecOnUint8{false};
         int deflateLevel{5};
-- 
2.43.0


From 8e7005082311a4573dd4f173e06665ac6e097899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:00 +0000
Subject: [PATCH 10/52] fix: collective HDF5 access failed on globally empty
 datasets and hung when only some ranks are empty

---
 src/DNDS/SerializerH5.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index dfa42a9..2432562 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -269,7 +269,8 @@ namespace DNDS::Serializer
         herr = H5Sclose(fileSpace);
         fileSpace = H5Dget_space(dset_id);
         herr |= H5Sselect_hyperslab(fileSpace, H5S_SELECT_SET, offset.data(), NULL, siz.data(), NULL);
-        herr |= H5Dwrite(dset_id, mem_dataType, memSpace, fileSpace, dxpl_id, buf);
+        if (nGlobal > 0) // HDF5 fails on collective writing into a dataset without any element
+            herr |= H5Dwrite(dset_id, mem_dataType, memSpace, fileSpace, dxpl_id, buf);
         herr |= H5Dclose(dset_id);
         herr |= H5Pclose(dcpl_id);
         herr |= H5Sclose(fileSpace);
@@ -494,7 +495,7 @@ namespace DNDS::Serializer
     /**
      * @brief
      *
-     * when #buf == 2, only set nGlobal and dim2
+     * when buf == nullptr (and nLocal != 0), only set nGlobal and dim2
      *
      * @param loc
      * @param name
@@ -530,7 +531,8 @@ namespace DNDS::Serializer
             dim2 = -1;
         nGlobal = sizes[0];
 
-        if (buf != nullptr)
+        // ranks with nothing to read (nLocal == 0, buf possibly null) take part as the reading may be collective
+        if ((buf != nullptr || nLocal == 0) && nGlobal > 0)
         {
             int rank = dim2 >= 0 ? 2 : 1;
             std::array<hsize_t, 2> offset{hsize_t(nOffset), 0};
-- 
2.43.0


From b32f44071847edc9daf8e90480f43927d6883376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:41 +0000
Subject: [PATCH 11/52] fix: matrix arrays with varying row counts could not be
 read back from HDF5

---
 src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
index 53e8cf9..56281a0 100644
--- a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
+++ b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
@@ -217,14 +217,15 @@ namespace DNDS
                 _mat_nRow_dynamic = v_mat_ni;
             if (v_mat_ni == NonUniformSize) // TODO: complete here!
             {
+                auto offsetRows = Serializer::ArrayGlobalOffset_Unknown; // offset is in use for the array itself
 
                 if constexpr (_mat_ni == NonUniformSize)
-                    serializerP->ReadSharedRowsizeVector("mat_nRows", _mat_nRows, offset); // TODO: multiple write to offset, check?
+                    serializerP->ReadSharedRowsizeVector("mat_nRows", _mat_nRows, offsetRows);
                 else
                 {
                     t_pRowSizes v_mat_nRows;
-                    serializerP->ReadSharedRowsizeVector("mat_nRows", v_mat_nRows, offset);
-                    int c_mat_nRow_dynamic = v_mat_nRows->size() ? 0 : v_mat_nRows->at(0);
+                    serializerP->ReadSharedRowsizeVector("mat_nRows", v_mat_nRows, offsetRows);
+                    int c_mat_nRow_dynamic = v_mat_nRows->empty() ? 0 : v_mat_nRows->at(0);
                     for (auto i = 0; i < v_mat_nRows->size(); ++i)
                         DNDS_assert(v_mat_nRows->operator[](i) == c_mat_nRow_dynamic);
                     _mat_nRow_dynamic = c_mat_nRow_dynamic;
-- 
2.43.0


From 72917d1364526037b06c4734f4b99a3299265272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:42 +0000
Subject: [PATCH 12/52] fix: compressed HDF5 output of a vector kept once for
 all ranks failed in parallel

---
 src/DNDS/SerializerH5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index 2432562..ef5c4d4 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -301,7 +301,7 @@ namespace DNDS::Serializer
 
         herr_t herr{0};
         hid_t dxpl_id = H5Pcreate(H5P_DATASET_XFER);
-        if ((offset.isDist() || offset == ArrayGlobalOffset_Parts) && (coll_on_data || deflateLevel > 0)) //! is this necessary?
+        if ((offset.isDist() || offset == ArrayGlobalOffset_Parts || offset == ArrayGlobalOffset_One) && (coll_on_data || deflateLevel > 0)) //! is this necessary?
             herr = H5Pset_dxpl_mpio(dxpl_id, H5FD_MPIO_COLLECTIVE), H5CHECK_Set;
         else
             herr = H5Pset_dxpl_mpio(dxpl_id, H5FD_MPIO_INDEPENDENT), H5CHECK_Set;
-- 
2.43.0


From 2b92e27d7fd1cd3099918d26601e6f5a0ee081e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:08 +0000
Subject: [PATCH 13/52] fix: an empty string could not be written to HDF5

---
 src/DNDS/SerializerH5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index ef5c4d4..488abd7 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -214,7 +214,7 @@ namespace DNDS::Serializer
             if (coll_on_meta)
                 herr = H5Pset_all_coll_metadata_ops(aapl_id, true), H5CHECK_Set;
             hid_t scalar_space = H5Screate(H5S_SCALAR);
-            hid_t string_type = H5Tcreate(H5T_STRING, v.length());
+            hid_t string_type = H5Tcreate(H5T_STRING, std::max<size_t>(v.length(), 1)); // zero size is not allowed; an empty string is one null byte
             herr = H5Tset_strpad(string_type, H5T_STR_NULLPAD), H5CHECK_Set;
             hid_t type_attr_id = H5Acreate(group_id, name.c_str(), string_type, scalar_space, H5P_DEFAULT, aapl_id);
             DNDS_assert_info(type_attr_id >= 0, fmt::format("{}, {}, {}", name, v, cP));
-- 
2.43.0


From 0861f9455ddeaf748479fde56adaa2d2f36d4b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:56 +0000
Subject: [PATCH 14/52] fix: converting second and third derivatives through a
 nonlinear map used the already converted first derivatives

---
 src/Geom/DiffTensors.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/Geom/DiffTensors.hpp b/src/Geom/DiffTensors.hpp
index a8509f9..8f2e2a5 100644
--- a/src/Geom/DiffTensors.hpp
+++ b/src/Geom/DiffTensors.hpp
@@ -345,6 +345,7 @@ namespace DNDS::Geom::Base
         static const auto &diffOperatorIJK2IcDim = getDiffOperatorIJK2I<dim>();
         MatrixXR out;
         out.resize(rows, nBase);
+        const MatrixXR matXi = mat; // every order needs the unconverted lower orders
 
         static const int nDiffSizC1 = ndiffSizS<dim>(1);
         static const auto seq0t1 = Eigen::seq(Eigen::fix<1>, Eigen::fix<nDiffSizC1 - 1>);
@@ -356,7 +357,7 @@ namespace DNDS::Geom::Base
                 ccv = 0;
                 for (int m = 0; m < dim; m++)
                     ccv += DxiDx(std::get<1>(diffOperatorIJK2IcDim)[i], m) *
-                           mat(std::get<1>(diffOperatorIJK2IcDim)[m], iB);
+                           matXi(std::get<1>(diffOperatorIJK2IcDim)[m], iB);
             }
         mat(seq0t1, Eigen::all) = out(seq0t1, Eigen::all);
         if (cmaxDiffOrder == 1)
@@ -373,12 +374,12 @@ namespace DNDS::Geom::Base
                 ccv = 0;
                 for (int m = 0; m < dim; m++)
                     ccv += DxiDx(std::get<2>(diffOperatorIJK2IcDim)[i][j], m) *
-                           mat(std::get<1>(diffOperatorIJK2IcDim)[m], iB);
+                           matXi(std::get<1>(diffOperatorIJK2IcDim)[m], iB);
                 for (int m = 0; m < dim; m++)
                     for (int n = 0; n < dim; n++)
                         ccv += DxiDx(std::get<1>(diffOperatorIJK2IcDim)[i], m) *
                                DxiDx(std::get<1>(diffOperatorIJK2IcDim)[j], n) *
-                               mat(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB);
+                               matXi(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB);
             }
         mat(seq1t2, Eigen::all) = out(seq1t2, Eigen::all);
         if (cmaxDiffOrder == 2)
@@ -396,19 +397,19 @@ namespace DNDS::Geom::Base
                 ccv = 0;
                 for (int m = 0; m < dim; m++)
                     ccv += DxiDx(std::get<3>(diffOperatorIJK2IcDim)[i][j][k], m) *
-                           mat(std::get<1>(diffOperatorIJK2IcDim)[m], iB);
+                           matXi(std::get<1>(diffOperatorIJK2IcDim)[m], iB);
                 for (int m = 0; m < dim; m++)
                     for (int n = 0; n < dim; n++)
                         ccv +=
                             DxiDx(std::get<2>(diffOperatorIJK2IcDim)[i][j], m) *
                                 DxiDx(std::get<1>(diffOperatorIJK2IcDim)[k], n) *
-                                mat(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB) +
+                                matXi(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB) +
                             DxiDx(std::get<2>(diffOperatorIJK2IcDim)[i][k], m) *
                                 DxiDx(std::get<1>(diffOperatorIJK2IcDim)[j], n) *
-                                mat(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB) +
+                                matXi(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB) +
                             DxiDx(std::get<2>(diffOperatorIJK2IcDim)[j][k], m) *
                                 DxiDx(std::get<1>(diffOperatorIJK2IcDim)[i], n) *
-                                mat(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB);
+                                matXi(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB);
                 for (int m = 0; m < dim; m++)
                     for (int n = 0; n < dim; n++)
                         for (int p = 0; p < dim; p++)
@@ -416,7 +417,7 @@ namespace DNDS::Geom::Base
                                 DxiDx(std::get<1>(diffOperatorIJK2IcDim)[i], m) *
                                 DxiDx(std::get<1>(diffOperatorIJK2IcDim)[j], n) *
                                 DxiDx(std::get<1>(diffOperatorIJK2IcDim)[k], p) *
-                                mat(std::get<3>(diffOperatorIJK2IcDim)[m][n][p], iB);
+                                matXi(std::get<3>(diffOperatorIJK2IcDim)[m][n][p], iB);
             }
         mat(seq2t3, Eigen::all) = out(seq2t3, Eigen::all);
         if (cmaxDiffOrder == 3)
-- 
2.43.0


From d49ad0b7d37babafa27c0422ebe19b6e30a5a5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:24 +0000
Subject: [PATCH 15/52] fix: nodes shared by three or more CGNS zones were
 numbered more than once or lost

---
 src/Geom/Mesh_Serial_ReadFromCGNS.cpp | 56 +++++++++++----------------
 1 file changed, 22 insertions(+), 34 deletions(-)

diff --git a/src/Geom/Mesh_Serial_ReadFromCGNS.cpp b/src/Geom/Mesh_Serial_ReadFromCGNS.cpp
index 55d7dff..e888eed 100644
--- a/src/Geom/Mesh_Serial_ReadFromCGNS.cpp
+++ b/src/Geom/Mesh_Serial_ReadFromCGNS.cpp
@@ -367,46 +367,34 @@ namespace DNDS::Geom
 
         std::vector<DNDS::index> NodeOld2New(ZoneNodeStarts.back(), -1);
         DNDS::index cTop = 0;
-        // !using graph traversing to delete the 1-to-1 interface points, otherwise could omit duplication (say, a point being shared by 3 or more zones)
-
-        std::set<int> zonesLeft; //* assuming nZones < ~ 1<<20=1M  // ! a dfs:
-        for (int iGZ = 0; iGZ < ZoneNodeSizes.size(); iGZ++)
-            zonesLeft.insert(iGZ);
-        std::vector<int> zonesFront;
-        zonesFront.push_back(0); // ! a dfs, use a queue to change to bfs
-        DNDS_assert(ZoneNodeSizes.size() >= 1);
-
-        while (zonesFront.size())
+        // !merge all points linked by 1-to-1 interfaces before numbering (union-find): a point shared by 3 or more zones
+        // !can be linked through any chain of interfaces, so no single traversal order of the zones is enough
+        std::vector<DNDS::index> nodeRoot(ZoneNodeStarts.back());
+        for (DNDS::index iNode = 0; iNode < nodeRoot.size(); iNode++)
+            nodeRoot[iNode] = iNode;
+        auto findRoot = [&](DNDS::index iNode)
         {
-            int iGZ = zonesFront.back();
-            zonesFront.pop_back();
-            zonesLeft.erase(iGZ);
+            while (nodeRoot.at(iNode) != iNode)
+                iNode = nodeRoot.at(iNode) = nodeRoot.at(nodeRoot.at(iNode));
+            return iNode;
+        };
+        for (int iGZ = 0; iGZ < nZones; iGZ++)
             for (int iOther = 0; iOther < ZoneConnect.at(iGZ).size(); iOther++)
             {
                 int iGZOther = ZoneConnectTargetIZone.at(iGZ).at(iOther);
-
-                if (zonesLeft.count(iGZOther)) // unaccounted for, then put into stack
-                {
-                    zonesFront.push_back(iGZOther);
-                }
-                else // already counted, then de-duplicate
-                {
-                    for (DNDS::index iNode = 0; iNode < ZoneConnect.at(iGZ).at(iOther).size(); iNode++)
-                    {
-                        NodeOld2New.at(ZoneNodeStarts.at(iGZ) + ZoneConnect.at(iGZ).at(iOther).at(iNode) - 1) //! note ZoneConnect is 1-based
-                            = NodeOld2New.at(ZoneNodeStarts.at(iGZOther) + ZoneConnectDonor.at(iGZ).at(iOther).at(iNode) - 1);
-                        DNDS_assert(NodeOld2New.at(ZoneNodeStarts.at(iGZ) + ZoneConnect.at(iGZ).at(iOther).at(iNode) - 1) >= 0);
-                    }
-                }
-            }
-            for (DNDS::index iNode = ZoneNodeStarts.at(iGZ); iNode < ZoneNodeStarts.at(iGZ + 1); iNode++)
-            {
-                if (NodeOld2New.at(iNode) < 0)
-                {
-                    NodeOld2New.at(iNode) = cTop;
-                    cTop++;
+                for (DNDS::index iNode = 0; iNode < ZoneConnect.at(iGZ).at(iOther).size(); iNode++)
+                { //! note ZoneConnect is 1-based
+                    DNDS::index rootA = findRoot(ZoneNodeStarts.at(iGZ) + ZoneConnect.at(iGZ).at(iOther).at(iNode) - 1);
+                    DNDS::index rootB = findRoot(ZoneNodeStarts.at(iGZOther) + ZoneConnectDonor.at(iGZ).at(iOther).at(iNode) - 1);
+                    nodeRoot.at(std::max(rootA, rootB)) = std::min(rootA, rootB);
                 }
             }
+        for (DNDS::index iNode = 0; iNode < NodeOld2New.size(); iNode++)
+        {
+            DNDS::index root = findRoot(iNode); // root <= iNode, already numbered unless equal
+            if (NodeOld2New.at(root) < 0)
+                NodeOld2New.at(root) = cTop++;
+            NodeOld2New.at(iNode) = NodeOld2New.at(root);
         }
         DNDS::log() << "CGNS === Assembled Zones have NNodes " << cTop << std::endl;
 
-- 
2.43.0


From 83a99aa03c07292115a206de8862320e5744e1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:24 +0000
Subject: [PATCH 16/52] fix: second-order triangles in a CGNS file were read as
 quadrilaterals

---
 src/Geom/CGNS.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Geom/CGNS.hpp b/src/Geom/CGNS.hpp
index 9474244..e52df73 100644
--- a/src/Geom/CGNS.hpp
+++ b/src/Geom/CGNS.hpp
@@ -20,6 +20,7 @@ namespace DNDS::Geom
         case TRI_3:
             return Elem::Tri3;
         case TRI_6:
+            return Elem::Tri6;
         case QUAD_4:
             return Elem::Quad4;
         case QUAD_9:
-- 
2.43.0


From d5194b321f3f72cd35cca7202c2610f3c2f92e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:12 +0000
Subject: [PATCH 17/52] fix: a CGNS boundary condition listing a single face
 was read past its end

---
 src/Geom/Mesh_Serial_ReadFromCGNS.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Geom/Mesh_Serial_ReadFromCGNS.cpp b/src/Geom/Mesh_Serial_ReadFromCGNS.cpp
index e888eed..79865e6 100644
--- a/src/Geom/Mesh_Serial_ReadFromCGNS.cpp
+++ b/src/Geom/Mesh_Serial_ReadFromCGNS.cpp
@@ -244,7 +244,8 @@ namespace DNDS::Geom
                         std::vector<cgsize_t> pts(nPts);
                         std::vector<double> normalBuf(normalListSize); // should have checked normalDataType, but it is not used here so not checked
                         DNDS_CGNS_CALL_EXIT(cg_boco_read(cgns_file, iBase, iZone, iBC, pts.data(), normalBuf.data()));
-                        DNDS_assert(pts[0] >= 1 && pts[1] <= ZoneElems.back()->Size());
+                        for (auto pt : pts) // a PointList may hold a single point
+                            DNDS_assert(pt >= 1 && pt <= ZoneElems.back()->Size());
 
                         t_index BCCode = FBCName_2_ID(std::string(boconame));
                         if (BCCode == BC_ID_NULL)
-- 
2.43.0


From 9e217cde91d07f90eaede3768c32904dc9effade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:13 +0000
Subject: [PATCH 18/52] fix: reading a periodic mesh with second-order elements
 aborted

---
 src/Geom/Mesh_Serial_BuildCell2Cell.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Geom/Mesh_Serial_BuildCell2Cell.cpp b/src/Geom/Mesh_Serial_BuildCell2Cell.cpp
index 7176c5e..903fb24 100644
--- a/src/Geom/Mesh_Serial_BuildCell2Cell.cpp
+++ b/src/Geom/Mesh_Serial_BuildCell2Cell.cpp
@@ -179,10 +179,10 @@ namespace DNDS::Geom
         /******************************************************************/
         // need to be done before cell2node points to de-duplicated
         /**********************************************************************************************************************/
-        // getting node2cell // only primary vertices
+        // getting node2cell // all nodes: second-order faces refer to their mid nodes too
         std::unordered_map<index, std::vector<index>> donorNode2Cell;
         for (DNDS::index iCell = 0; iCell < cell2nodeSerial->Size(); iCell++)
-            for (DNDS::rowsize iN = 0; iN < Elem::Element{(*cellElemInfoSerial)(iCell, 0).getElemType()}.GetNumVertices(); iN++)
+            for (DNDS::rowsize iN = 0; iN < cell2nodeSerial->RowSize(iCell); iN++)
             {
                 auto iNode = (*cell2nodeSerial)(iCell, iN);
                 if (iNodeDonorToMain1.count(iNode) || iNodeDonorToMain2.count(iNode) || iNodeDonorToMain3.count(iNode))
-- 
2.43.0


From 1abbb88f595b052dd764261b7f5b0b478ee67d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:14 +0000
Subject: [PATCH 19/52] fix: asking for the element order of a mesh gave each
 rank its own answer instead of the common one

---
 src/Geom/Mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Geom/Mesh.cpp b/src/Geom/Mesh.cpp
index 4e9d3f8..19dff85 100644
--- a/src/Geom/Mesh.cpp
+++ b/src/Geom/Mesh.cpp
@@ -453,7 +453,7 @@ namespace DNDS::Geom
         }
         int hasBadAll;
         MPI::Allreduce(&hasBad, &hasBadAll, 1, MPI_INT, MPI_SUM, mpi.comm);
-        return hasBad == 0;
+        return hasBadAll == 0;
     }
 
     bool UnstructuredMesh::IsO2()
@@ -481,7 +481,7 @@ namespace DNDS::Geom
         }
         int hasBadAll;
         MPI::Allreduce(&hasBad, &hasBadAll, 1, MPI_INT, MPI_SUM, mpi.comm);
-        return hasBad == 0;
+        return hasBadAll == 0;
     }
 
     using tIndexMapFunc = std::function<index(index)>;
-- 
2.43.0


From d90e2db073f678f688e998074f961dd324f78785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:14 +0000
Subject: [PATCH 20/52] fix: GMRES dropped the last basis vector when the
 Krylov space closed early

---
 src/Solver/Linear.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Solver/Linear.hpp b/src/Solver/Linear.hpp
index f7f0169..18433dc 100644
--- a/src/Solver/Linear.hpp
+++ b/src/Solver/Linear.hpp
@@ -81,6 +81,7 @@ namespace DNDS::Linear
                     if (h(j + 1, j) < scale_MLb * 1e-32)
                     {
                         std::cout << "early stop" << std::endl;
+                        j++; // the space is closed: column j belongs to the least squares problem
                         break;
                     }
                     Vs[j + 1] *= 1.0 / h(j + 1, j); // normalize
-- 
2.43.0


From 5c974b80e1067958dac3584eda9dc85132f04a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:14 +0000
Subject: [PATCH 21/52] fix: BDF StepPP added the right hand side to itself
 instead of the evaluated one

---
 src/Solver/ODE.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index 9336fac..028fa52 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -456,7 +456,7 @@ namespace DNDS::ODE
                 rhs.addTo(xLast, 1 / dt);
                 resOther = rhs;
                 rhs.addTo(x, -1. / dt);
-                rhs.addTo(rhs, BDFCoefs(kCurrent - 1, 0));
+                rhs.addTo(rhsbuf[0], BDFCoefs(kCurrent - 1, 0));
                 fsolve(x, rhs, resOther, dTau, dt, BDFCoefs(kCurrent - 1, 0), xinc, iter, 1.0, 0);
                 //* xinc = (I/dtau-A*alphaDiag)\rhs
 
-- 
2.43.0


From b2750688a80a4dc4f561c621391b72e43c355ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:14 +0000
Subject: [PATCH 22/52] fix: VBDF StepPP evaluated its right hand side into the
 wrong buffer

---
 src/Solver/ODE.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index 028fa52..fb0fec8 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -725,7 +725,7 @@ namespace DNDS::ODE
             {
                 fdt(x, dTau, BDFCoefs(0), 0);
 
-                frhs(rhs, x, dTau, iter, 1.0, 0);
+                frhs(rhsbuf[0], x, dTau, iter, 1.0, 0);
 
                 xBase.setConstant(0.0);
                 xBase.addTo(xLast, (BDFCoefs(1) - 0) / dt); // 0 because xBase includes xLast/dt part
-- 
2.43.0


From e49650f2e24bf478e6693a3cd9d8575e661b2624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:14 +0000
Subject: [PATCH 23/52] fix: VBDF getLatestRHS returned a work array instead of
 the latest right hand side

---
 src/Solver/ODE.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index fb0fec8..423cfd6 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -793,7 +793,7 @@ namespace DNDS::ODE
 
         virtual TDATA &getLatestRHS() override
         {
-            return rhs;
+            return rhsbuf[0];
         }
 
         virtual ~ImplicitVBDFDualTimeStep() = default;
-- 
2.43.0


From 85686c163a63045954cfb1105ab8393e3584274a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:14 +0000
Subject: [PATCH 24/52] fix: HM3 evaluated its mid stage at the wrong time in
 start-up steps

---
 src/Solver/ODE.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index 423cfd6..db0a957 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -838,6 +838,7 @@ namespace DNDS::ODE
         int nStartIter = 0;
         real thetaM1 = 0.9146;
         real alphaHM3 = 0.5;
+        real alphaHM3Exe = 0.5; // position of the mid point the current coefficients are for
         int maskHM3 = 0;
         int maskHM3Exe = 0;
 
@@ -932,6 +933,7 @@ namespace DNDS::ODE
                 break;
             }
 
+            alphaHM3Exe = alpha;
             wInteg[0] = (-1.0 / 6.0) / alpha + 1.0 / 2.0;
             wInteg[1] = (-1.0 / 6.0) / (alpha * (alpha - 1.0));
             wInteg[2] = 1.0 / (alpha * 6.0 - 6.0) + 1.0 / 2.0;
@@ -1009,12 +1011,12 @@ namespace DNDS::ODE
                                 rhsMid.addTo(rhsbuf[2], thetaCur * wInteg(1));
                             }
                             fdt(xMid, dTau, 1.0, 1);
-                            fsolve(xMid, rhsMid, resOther, dTau, dt, std::abs(thetaCur * wInteg(1)), xinc, iter, alphaHM3, 1);
+                            fsolve(xMid, rhsMid, resOther, dTau, dt, std::abs(thetaCur * wInteg(1)), xinc, iter, alphaHM3Exe, 1);
                         }
 
                         fincrement(xMid, xinc, 1.0, 1);
 
-                        frhs(rhsbuf[2], xMid, dTau, iter, alphaHM3, 1);
+                        frhs(rhsbuf[2], xMid, dTau, iter, alphaHM3Exe, 1);
 
                         rhsFull.setConstant(0.0);
                         {
-- 
2.43.0


From 8f6d101388bd340f246f651591267711e992cb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:15 +0000
Subject: [PATCH 25/52] fix: SSPRK3 stages were evaluated at the wrong times

---
 src/Solver/ODE.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index db0a957..177021a 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -1227,7 +1227,7 @@ namespace DNDS::ODE
             // MPI::Barrier(MPI_COMM_WORLD);
             // std::cout << "fucked" << std::endl;
 
-            frhs(rhs, x, dTau, 1, 0.5, 0);
+            frhs(rhs, x, dTau, 1, 0.0, 0);
             rhsbuf[0] = rhs;
             if (localDtStepping)
                 rhs *= dTau;
@@ -1248,7 +1248,7 @@ namespace DNDS::ODE
             // x.addTo(rhs, 0.25);
             fincrement(x, rhs, 0.25, 0);
 
-            frhs(rhs, x, dTau, 1, 0.25, 0);
+            frhs(rhs, x, dTau, 1, 0.5, 0);
             rhsbuf[2] = rhs;
             if (localDtStepping)
                 rhs *= dTau;
-- 
2.43.0


From ab3206142fadbc45fdc8643a96af995a081c5e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:15 +0000
Subject: [PATCH 26/52] fix: Gauss-Seidel reconstruction gave the boundary
 condition a half updated cell

---
 src/CFV/VariationalReconstruction_Reconstruction.hxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/CFV/VariationalReconstruction_Reconstruction.hxx b/src/CFV/VariationalReconstruction_Reconstruction.hxx
index 8f6d6eb..25a0f02 100644
--- a/src/CFV/VariationalReconstruction_Reconstruction.hxx
+++ b/src/CFV/VariationalReconstruction_Reconstruction.hxx
@@ -482,6 +482,8 @@ namespace DNDS
             {
                 cellOp(iCell);
                 real relax = cellAtr[iCell].relax;
+                // SOR: uRec[iCell] must stay intact until GetBoundaryRHS() has seen it for all the faces
+                Eigen::Matrix<real, Eigen::Dynamic, nVarsFixed> uRecCell;
 
                 if (recordInc)
                 {
@@ -491,7 +493,7 @@ namespace DNDS
                         uRecNew[iCell] = uRec[iCell];
                 }
                 else if (settings.SORInstead)
-                    uRec[iCell] = uRec[iCell] * ((recordInc ? 0 : 1) - relax);
+                    uRecCell = uRec[iCell] * ((recordInc ? 0 : 1) - relax);
                 else
                     uRecNew[iCell] = uRec[iCell] * ((recordInc ? 0 : 1) - relax);
 
@@ -529,7 +531,7 @@ namespace DNDS
                                      vectorAInvBRow[ic2f] * (uOther - u[iCell].transpose()));
                         }
                         else if (settings.SORInstead)
-                            uRec[iCell] +=
+                            uRecCell +=
                                 relax *
                                 (matrixAAInvBRow[ic2f + 1] * uRecOther +
                                  vectorAInvBRow[ic2f] * (uOther - u[iCell].transpose()));
@@ -552,13 +554,15 @@ namespace DNDS
                                     matrixAAInvBRow[0] * BCC;
                         }
                         else if (settings.SORInstead && !recordInc)
-                            uRec[iCell] +=
+                            uRecCell +=
                                 relax * matrixAAInvBRow[0] * BCC;
                         else
                             uRecNew[iCell] +=
                                 relax * matrixAAInvBRow[0] * BCC;
                     }
                 }
+                if (settings.SORInstead && !recordInc)
+                    uRec[iCell] = uRecCell;
                 if ((!uRecNew[iCell].allFinite()) || (!uRec[iCell].allFinite()))
                 {
                     DNDS_assert(false);
-- 
2.43.0


From 57ea336f7a9b2b5f4eb9045afcee1ac9f24df383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:15 +0000
Subject: [PATCH 27/52] fix: the SOR sweep of the linearised reconstruction did
 not relax its right hand side and used half updated cells on boundaries

---
 src/CFV/VariationalReconstruction_Reconstruction.hxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/CFV/VariationalReconstruction_Reconstruction.hxx b/src/CFV/VariationalReconstruction_Reconstruction.hxx
index 25a0f02..084b1ad 100644
--- a/src/CFV/VariationalReconstruction_Reconstruction.hxx
+++ b/src/CFV/VariationalReconstruction_Reconstruction.hxx
@@ -674,7 +674,9 @@ namespace DNDS
                     iCell = mesh->NumCell() - 1 - iCell;
                 real relax = cellAtr[iCell].relax;
 
-                uRecNew[iCell] = (1 - relax) * uRecNew[iCell] + uRecInc[iCell];
+                // uRecNew[iCell] must stay intact until GetBoundaryRHSDiff() has seen it for all the faces
+                Eigen::Matrix<real, Eigen::Dynamic, nVarsFixed> uRecCell =
+                    (1 - relax) * uRecNew[iCell] + relax * uRecInc[iCell];
 
                 auto c2f = mesh->cell2face[iCell];
                 auto matrixAAInvBRow = matrixAAInvB[iCell];
@@ -697,15 +699,16 @@ namespace DNDS
                                 (if2c == 0 && Geom::FaceIDIsPeriodicMain(faceID))) // I am main
                                 FTransPeriodicBack(uRecOtherNew, faceID);
                         }
-                        uRecNew[iCell] += relax * matrixAAInvBRow[ic2f + 1] * uRecOtherNew; // mind the sign
+                        uRecCell += relax * matrixAAInvBRow[ic2f + 1] * uRecOtherNew; // mind the sign
                     }
                     else
                     {
                         Eigen::Matrix<real, Eigen::Dynamic, nVarsFixed> BCC = GetBoundaryRHSDiff(uRec, uRecNew, u, iCell, iFace, FBoundaryDiff);
                         // BCC *= 0;
-                        uRecNew[iCell] += relax * matrixAAInvBRow[0] * BCC; // mind the sign
+                        uRecCell += relax * matrixAAInvBRow[0] * BCC; // mind the sign
                     }
                 }
+                uRecNew[iCell] = uRecCell;
             }
         }
     }
-- 
2.43.0


From 04345b6c7e2de631ad7bb78507c9413c4da329d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:15 +0000
Subject: [PATCH 28/52] fix: boundary callbacks got a normal that was not of
 unit length with a separate VR quadrature order

---
 src/CFV/VariationalReconstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CFV/VariationalReconstruction.cpp b/src/CFV/VariationalReconstruction.cpp
index e537fa6..4090abc 100644
--- a/src/CFV/VariationalReconstruction.cpp
+++ b/src/CFV/VariationalReconstruction.cpp
@@ -785,7 +785,7 @@ namespace DNDS::CFV
                                 tPoint pPhy = Elem::PPhysicsCoordD01Nj(coords, DiNj);
                                 tJacobi J = Elem::ShapeJacobianCoordD01Nj(coords, DiNj);
                                 real JDet = JacobiDetFace<dim>(J);
-                                tPoint np = FacialJacobianToNormVec<dim>(J);
+                                tPoint np = FacialJacobianToNormVec<dim>(J).stableNormalized();
                                 RowVectorXR dbv, dbvD;
                                 dbvD.resize(1, cellAtr[iCell].NDOF);
                                 this->FDiffBaseValue(dbvD, this->GetFacePointFromCell(iFace, iCell, -1, pPhy), iCell, iFace, -2, 0);
-- 
2.43.0


From 204cca30cfe0b1c9aed709077ddff0d759184952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:15 +0000
Subject: [PATCH 29/52] fix: anisotropic face functional used the face normal
 in the wrong frame across rotated periodic faces

---
 src/CFV/VariationalReconstruction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CFV/VariationalReconstruction.hpp b/src/CFV/VariationalReconstruction.hpp
index aec86c1..0883f36 100644
--- a/src/CFV/VariationalReconstruction.hpp
+++ b/src/CFV/VariationalReconstruction.hpp
@@ -704,7 +704,7 @@ namespace DNDS::CFV
                     // coordTrans({1, 2}, Eigen::all).setZero();
                 }
                 {
-                    tPoint norm = this->GetFaceNorm(iFace, -1);
+                    tPoint norm = this->GetFaceNormFromCell(iFace, iCellL, -1, -1); // DiffI and DiffJ are in the frame of iCellL
                     real areaL = this->GetFaceArea(iFace);
                     if constexpr (dim == 3)
                         areaL = std::sqrt(areaL);
-- 
2.43.0


From 8733c333e6148854c4e1a107c6d1711e1d4a6801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:30 +0000
Subject: [PATCH 30/52] fix: building reconstruction coefficients without
 Green-Gauss terms compressed arrays that were never created (null
 dereference)

---
 src/CFV/VariationalReconstruction.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CFV/VariationalReconstruction.cpp b/src/CFV/VariationalReconstruction.cpp
index 4090abc..9a3e6ad 100644
--- a/src/CFV/VariationalReconstruction.cpp
+++ b/src/CFV/VariationalReconstruction.cpp
@@ -1172,7 +1172,8 @@ namespace DNDS::CFV
         vectorAInvB.CompressBoth();
         if (needOriginalMatrix)
             vectorB.CompressBoth();
-        matrixAHalf_GG.CompressBoth();
+        if (settings.functionalSettings.greenGauss1Weight != 0)
+            matrixAHalf_GG.CompressBoth();
 
         // standard comm for matrixA
         matrixA.TransAttach();
-- 
2.43.0


From 95f61ad77d27ac9ea545e26a295985d197d5bfba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:08:35 +0000
Subject: [PATCH 31/52] fix: HLLC flux on a moving face was inconsistent: the
 pressure work used the velocity relative to the face

---
 src/Euler/Gas.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/Gas.hpp b/src/Euler/Gas.hpp
index 966e5ae..c95b973 100644
--- a/src/Euler/Gas.hpp
+++ b/src/Euler/Gas.hpp
@@ -484,7 +484,7 @@ namespace DNDS::Euler::Gas
         Eigen::Vector<real, dim + 2> DS;
         DS.setZero();
         DS(Eigen::seq(Eigen::fix<1>, Eigen::fix<dim>)) = n;
-        DS(dim + 1) = SS;
+        DS(dim + 1) = SS + vgN; // SS is relative to the face, the pressure work is not
         // SS += sign(SS) * std::exp(-std::abs(SS) / dLambda) * dLambda;
         if (SS >= 0)
         {
-- 
2.43.0


From bb5285c06f10658e285256eecd0d5e7ea544852d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:08:35 +0000
Subject: [PATCH 32/52] fix: HLLEP flux bounded the signal speeds with absolute
 values, so it depended on the side a face is seen from and did not upwind
 supersonic inflow

---
 src/Euler/Gas.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Euler/Gas.hpp b/src/Euler/Gas.hpp
index c95b973..e39abae 100644
--- a/src/Euler/Gas.hpp
+++ b/src/Euler/Gas.hpp
@@ -330,8 +330,8 @@ namespace DNDS::Euler::Gas
         // std::cout << alpha.transpose() << std::endl;
         // std::cout << std::endl;
 
-        real SL = std::min(lam0, veloLm0 - std::sqrt(asqrL));
-        real SR = std::max(lam4, veloRm0 + std::sqrt(asqrR));
+        real SL = std::min(veloRoe0 - aRoe, veloLm0 - std::sqrt(asqrL));
+        real SR = std::max(veloRoe0 + aRoe, veloRm0 + std::sqrt(asqrR));
         real UU = std::abs(veloRoe0);
         real dfix = aRoe / (aRoe + UU);
         real SP = std::max(SR, 0.0);
-- 
2.43.0


From 5af19f0601662e1998ae5f5e515424747542b67e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:08:35 +0000
Subject: [PATCH 33/52] fix: the realizable k-epsilon source used k in place of
 epsilon

---
 src/Euler/RANS_ke.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/RANS_ke.hpp b/src/Euler/RANS_ke.hpp
index ec0b672..b0e7035 100644
--- a/src/Euler/RANS_ke.hpp
+++ b/src/Euler/RANS_ke.hpp
@@ -84,7 +84,7 @@ namespace DNDS::Euler::RANS
         Eigen::Matrix<real, dim, dim> SS = diffU + diffU.transpose() - (2. / 3.) * diffU.trace() * Eigen::Matrix<real, dim, dim>::Identity();
         real rho = UMeanXy(0);
         real k = std::max(UMeanXy(I4 + 1) / rho, verySmallReal_4);
-        real epsilon = std::max(UMeanXy(I4 + 1) / rho, verySmallReal_4);
+        real epsilon = std::max(UMeanXy(I4 + 2) / rho, verySmallReal_4);
         real Ret = rho * sqr(k) / (muf * epsilon) + verySmallReal_4;
         real S = std::sqrt(SS.squaredNorm() / 2) + verySmallReal_4;
         real fmu = (1 - std::exp(-0.01 * Ret)) / std::max(1 - exp(-std::sqrt(Ret)), verySmallReal_4) * std::max(1., std::sqrt(2 / Ret));
-- 
2.43.0


From b724c308a6c5a285ba7cf6d47115520f574e7a20 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:08:35 +0000
Subject: [PATCH 34/52] fix: the upper limit of the SST production discarded
 its lower limit, k production could be negative

---
 src/Euler/RANS_ke.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/RANS_ke.hpp b/src/Euler/RANS_ke.hpp
index b0e7035..e84e9bc 100644
--- a/src/Euler/RANS_ke.hpp
+++ b/src/Euler/RANS_ke.hpp
@@ -396,7 +396,7 @@ namespace DNDS::Euler::RANS
         real PkTilde = Pk;
 #if KW_SST_PROD_LIMITS == 1
         PkTilde = std::max(PkTilde, verySmallReal);
-        PkTilde = std::min(Pk, 20 * betaStar * rho * k * omegaaa); // CFD++'s limiting: 10 times
+        PkTilde = std::min(PkTilde, 20 * betaStar * rho * k * omegaaa); // CFD++'s limiting: 10 times
 #endif
 
         real gammaC = gamma1 * F1 + gamma1 * (1 - F1);
-- 
2.43.0


From c89e9e5e7ff8cba355c307347d6c222feded4b5f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:08:36 +0000
Subject: [PATCH 35/52] fix: SST used the inner-layer production coefficient of
 omega in the outer layer as well

---
 src/Euler/RANS_ke.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/RANS_ke.hpp b/src/Euler/RANS_ke.hpp
index e84e9bc..a53c2ab 100644
--- a/src/Euler/RANS_ke.hpp
+++ b/src/Euler/RANS_ke.hpp
@@ -399,7 +399,7 @@ namespace DNDS::Euler::RANS
         PkTilde = std::min(PkTilde, 20 * betaStar * rho * k * omegaaa); // CFD++'s limiting: 10 times
 #endif
 
-        real gammaC = gamma1 * F1 + gamma1 * (1 - F1);
+        real gammaC = gamma1 * F1 + gamma2 * (1 - F1);
         real sigK = sigK1 * F1 + sigK2 * (1 - F1);
         real sigO = sigO1 * F1 + sigO2 * (1 - F1);
         real beta = beta1 * F1 + beta2 * (1 - F1);
-- 
2.43.0


From 4e47565bba1a152e559e0e6e88d7e796522d332e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:08:36 +0000
Subject: [PATCH 36/52] fix: Wilcox k-omega cross diffusion lacked the density,
 so it depended on the choice of units

---
 src/Euler/RANS_ke.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/RANS_ke.hpp b/src/Euler/RANS_ke.hpp
index a53c2ab..4f9524b 100644
--- a/src/Euler/RANS_ke.hpp
+++ b/src/Euler/RANS_ke.hpp
@@ -582,7 +582,7 @@ namespace DNDS::Euler::RANS
         if (mode == 0)
         {
             source(I4 + 1) = Pk - betaS * rho * k * omegaaa;
-            source(I4 + 2) = POmega - beta * rho * sqr(omegaaa) + SigD / omegaaa * crossDiff;
+            source(I4 + 2) = POmega - beta * rho * sqr(omegaaa) + SigD * rho / omegaaa * crossDiff;
         }
         else
         {
-- 
2.43.0


From 6e4eb008cdf4bf850fcd062b327c94894da22063 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:11:05 +0000
Subject: [PATCH 37/52] fix: HLLC wave speed estimate had the velocity jump
 reversed and let SL exceed SR for colliding streams, making the flux depend
 on the side of the face

---
 src/Euler/Gas.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Euler/Gas.hpp b/src/Euler/Gas.hpp
index e39abae..2e2582f 100644
--- a/src/Euler/Gas.hpp
+++ b/src/Euler/Gas.hpp
@@ -451,10 +451,10 @@ namespace DNDS::Euler::Gas
                 q = 1;
             return q;
         };
-        real pS = 0.5 * (pLm + pRm) - 0.5 * (veloLm0 - veloRm0) * rhoRoe * aRoe;
+        real pS = 0.5 * (pLm + pRm) - 0.5 * (veloRm0 - veloLm0) * rhoRoe * aRoe;
         pS = std::max(0.0, pS);
-        real SL = veloLm0 - std::sqrt(asqrLm) * HLLCq(pLm, pS);
-        real SR = veloRm0 + std::sqrt(asqrRm) * HLLCq(pRm, pS);
+        real SL = std::min(veloRoe0 - aRoe, veloLm0 - std::sqrt(asqrLm) * HLLCq(pLm, pS));
+        real SR = std::max(veloRoe0 + aRoe, veloRm0 + std::sqrt(asqrRm) * HLLCq(pRm, pS));
 
         dLambda += verySmallReal;
         dLambda *= 2.0;
-- 
2.43.0


From 70b76948326905720ea65aae58a3cf8b9b197ee1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:26:18 +0000
Subject: [PATCH 38/52] fix: the integration option of far-field, inflow,
 outflow and symmetry boundaries was lost when the configuration was written

---
 src/Euler/EulerBC.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Euler/EulerBC.hpp b/src/Euler/EulerBC.hpp
index ea50ea4..bb7b18a 100644
--- a/src/Euler/EulerBC.hpp
+++ b/src/Euler/EulerBC.hpp
@@ -230,6 +230,7 @@ namespace DNDS::Euler
                     item["value"] = static_cast<TU_R>(bc.BCValues.at(i)); // force begin() and end() to be exposed
                     item["frameOption"] = bc.BCFlags.at(i).at("frameOpt");
                     item["anchorOption"] = bc.BCFlags.at(i).at("anchorOpt");
+                    item["integrationOption"] = bc.BCFlags.at(i).at("integrationOpt");
                     item["valueExtra"] = bc.BCValuesExtra.at(i);
                 }
                 break;
@@ -248,6 +249,7 @@ namespace DNDS::Euler
                 case EulerBCType::BCSym:
                 {
                     item["rectifyOption"] = bc.BCFlags.at(i).at("rectifyOpt");
+                    item["integrationOption"] = bc.BCFlags.at(i).at("integrationOpt");
                     item["valueExtra"] = bc.BCValuesExtra.at(i);
                 }
                 break;
-- 
2.43.0


From 5d7eb096863f761fed02f776d34cbd6bd02ed415 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:26:18 +0000
Subject: [PATCH 39/52] fix: the long-window lift tolerance was an integer, so
 every tolerance below one became zero

---
 src/Euler/CLDriver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/CLDriver.hpp b/src/Euler/CLDriver.hpp
index 4507d32..7a86d41 100644
--- a/src/Euler/CLDriver.hpp
+++ b/src/Euler/CLDriver.hpp
@@ -28,7 +28,7 @@ namespace DNDS::Euler
         index CLconvergeWindow = 10;
 
         index CLconvergeLongWindow = 100;
-        index CLconvergeLongThreshold = 1e-4;
+        real CLconvergeLongThreshold = 1e-4;
 
         DNDS_NLOHMANN_DEFINE_TYPE_INTRUSIVE_WITH_ORDERED_JSON(
             CLDriverSettings,
-- 
2.43.0


From af8bbe0eb82d0d20f5b6bb115f6155f0535546d7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:26:18 +0000
Subject: [PATCH 40/52] fix: the angle of attack became NaN once lift settled
 on its target

---
 src/Euler/CLDriver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/CLDriver.hpp b/src/Euler/CLDriver.hpp
index 7a86d41..53e5184 100644
--- a/src/Euler/CLDriver.hpp
+++ b/src/Euler/CLDriver.hpp
@@ -111,7 +111,7 @@ namespace DNDS::Euler
                     if (lastCL == veryLargeReal || lastAOA == veryLargeReal)
                         CLSlope = CLSlopeStandard;
 
-                    if (CLSlope < 0)
+                    if (!(CLSlope >= 0)) // negative, or undefined as neither CL nor AOA has changed
                         CLSlope = CLSlopeStandard; //! warning, assuming positive CLSlope now
                     // if (std::abs(CLSlope) > 10 * CLSlopeStandard)
                     //     CLSlope = CLSlopeStandard;
-- 
2.43.0


From 882054d20d817554747da61dcfdb8e517b9b207a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:48:30 +0000
Subject: [PATCH 41/52] fix: converting the mean face gradient used the
 three-dimensional form also for two-dimensional models (out of bounds)

---
 src/Euler/EulerEvaluator_EvaluateRHS.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/EulerEvaluator_EvaluateRHS.hxx b/src/Euler/EulerEvaluator_EvaluateRHS.hxx
index 40d2f5c..829b725 100644
--- a/src/Euler/EulerEvaluator_EvaluateRHS.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateRHS.hxx
@@ -366,7 +366,7 @@ namespace DNDS::Euler
                                               (unitNorm * (URxyPrim - ULxyPrim).transpose());
                     }
                     else
-                        Gas::GradientCons2Prim_IdealGas(UMeanXy, GradUMeanXy, GradUMeanXyPrim, gamma);
+                        Gas::GradientCons2Prim_IdealGas<dim>(UMeanXy, GradUMeanXy, GradUMeanXyPrim, gamma);
 
 #else
                     TDiffU GradUMeanXy;
-- 
2.43.0


From a017fcb59ec18048533c8751ad6a8c0e732ebe58 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:48:31 +0000
Subject: [PATCH 42/52] fix: default wall and far-field boundaries in a
 rotating frame threw on their missing frame option

---
 src/Euler/EulerEvaluator_EvaluateDt.hxx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Euler/EulerEvaluator_EvaluateDt.hxx b/src/Euler/EulerEvaluator_EvaluateDt.hxx
index dbdf718..c25a46e 100644
--- a/src/Euler/EulerEvaluator_EvaluateDt.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateDt.hxx
@@ -1509,7 +1509,7 @@ namespace DNDS::Euler
 
                 if (bTypeEuler == EulerBCType::BCFar)
                 {
-                    if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromID(btype, "frameOpt") != 0)
+                    if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromIDSoft(btype, "frameOpt") != 0)
                         far(Seq123) = (Geom::RotateAxis(-settings.frameConstRotation.vOmega() * t) * Geom::ToThreeDim<dim>(far(Seq123)))(Seq012);
                     // std::cout << Geom::RotateAxis(settings.frameConstRotation.vOmega() * t) * Geom::RotateAxis(settings.frameConstRotation.vOmega() * t).transpose() << std::endl;
                     // DNDS_assert(false);
@@ -1863,24 +1863,24 @@ namespace DNDS::Euler
             URxy = ULxy;
             if (geomMode == 0 || true) // now using only the physical mode
             {
-                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromID(btype, "frameOpt") == 0)
+                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromIDSoft(btype, "frameOpt") == 0)
                     this->TransformURotatingFrame_ABS_VELO(URxy, pPhysics, -1);
-                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromID(btype, "frameOpt") != 0)
+                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromIDSoft(btype, "frameOpt") != 0)
                     this->TransformURotatingFrame(URxy, pPhysics, 1);
                 URxy(Seq123) *= -1;
-                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromID(btype, "frameOpt") == 0)
+                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromIDSoft(btype, "frameOpt") == 0)
                     this->TransformURotatingFrame_ABS_VELO(URxy, pPhysics, 1);
-                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromID(btype, "frameOpt") != 0)
+                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromIDSoft(btype, "frameOpt") != 0)
                     this->TransformURotatingFrame(URxy, pPhysics, -1);
             }
             else
             {
                 URxy(Seq123) *= -1;
 #ifdef USE_ABS_VELO_IN_ROTATION
-                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromID(btype, "frameOpt") == 0)
+                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromIDSoft(btype, "frameOpt") == 0)
                     this->TransformVelocityRotatingFrame(URxy, pPhysics, 2);
 #else
-                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromID(btype, "frameOpt") != 0)
+                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromIDSoft(btype, "frameOpt") != 0)
                     this->TransformVelocityRotatingFrame(URxy, pPhysics, -2);
 #endif
             }
@@ -1951,7 +1951,7 @@ namespace DNDS::Euler
                 URxy(Seq123) = pCLDriver->GetAOARotation()(Seq012, Seq012) * URxy(Seq123);
             if (bTypeEuler == EulerBCType::BCFar)
             {
-                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromID(btype, "frameOpt") != 0)
+                if (settings.frameConstRotation.enabled && pBCHandler->GetFlagFromIDSoft(btype, "frameOpt") != 0)
                     URxy(Seq123) = (Geom::RotateAxis(-settings.frameConstRotation.vOmega() * t) * Geom::ToThreeDim<dim>(URxy(Seq123)))(Seq012);
             }
             if (settings.frameConstRotation.enabled)
-- 
2.43.0


From b084c3d20e11dcf914325b1770b57c87f20cf45d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:48:31 +0000
Subject: [PATCH 43/52] fix: rotated Riemann solver with mean-value eigenvalues
 left the first direction's flux uninitialised

---
 src/Euler/EulerEvaluator_EvaluateDt.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/EulerEvaluator_EvaluateDt.hxx b/src/Euler/EulerEvaluator_EvaluateDt.hxx
index c25a46e..c0d51e3 100644
--- a/src/Euler/EulerEvaluator_EvaluateDt.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateDt.hxx
@@ -1201,7 +1201,7 @@ namespace DNDS::Euler
                     Gas::InviscidFlux_IdealGas_Batch_Dispatcher<dim>(
                         rsTypeAux,
                         ULxy, URxy, ULMeanXy, URMeanXy, vgXY, vgC, N1B, N1,
-                        settings.idealGasProperty.gamma, finc, deltaLambdaFace[iFace],
+                        settings.idealGasProperty.gamma, F1, deltaLambdaFace[iFace],
                         exitFun, lam0, lam123, lam4);
                     lam0V1.setConstant(lam0);
                     lam123V1.setConstant(lam123);
-- 
2.43.0


From 8fa686daf2d565a022569978edf1faefa5a4328f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:48:31 +0000
Subject: [PATCH 44/52] fix: rotated Riemann solver was anti-dissipative where
 the velocity jump points against the face normal

---
 src/Euler/EulerEvaluator_EvaluateDt.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Euler/EulerEvaluator_EvaluateDt.hxx b/src/Euler/EulerEvaluator_EvaluateDt.hxx
index c0d51e3..2e37e30 100644
--- a/src/Euler/EulerEvaluator_EvaluateDt.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateDt.hxx
@@ -1168,6 +1168,8 @@ namespace DNDS::Euler
             else
             {
                 TVec N1 = diffVelo / diffVeloN;
+                if (N1.dot(unitNormC) < 0) // both directions point from left to right
+                    N1 *= -1;
                 DNDS_assert_info(std::abs(N1.norm() - 1) < 1e-5, fmt::format("{}", diffVeloN));
                 TReal_Batch N1Proj = N1.transpose() * unitNorm;
 
-- 
2.43.0


From 6eb7d8cfea84085306fefbfcc24efca36b797fed Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:48:31 +0000
Subject: [PATCH 45/52] fix: the normal stress of k acted in the x direction
 instead of along the face normal

---
 src/Euler/EulerEvaluator_EvaluateDt.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Euler/EulerEvaluator_EvaluateDt.hxx b/src/Euler/EulerEvaluator_EvaluateDt.hxx
index 2e37e30..0fcc19c 100644
--- a/src/Euler/EulerEvaluator_EvaluateDt.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateDt.hxx
@@ -1286,8 +1286,10 @@ namespace DNDS::Euler
                 ((vnL * ULxy(I4 + 2, Eigen::all).array() + vnR * URxy(I4 + 2, Eigen::all).array()) -
                  (URxy(I4 + 2, Eigen::all).array() - ULxy(I4 + 2, Eigen::all).array()) * lambdaFaceCC.array()) *
                 0.5;
-            finc(1, Eigen::all).array() += UMeanXy(I4 + 1, Eigen::all).array() * (2. / 3.); //! k's normal stress
-            finc(I4, Eigen::all).array() += UMeanXy(I4 + 1, Eigen::all).array() * (2. / 3.) * UMeanXy(1, Eigen::all).array() / UMeanXy(0, Eigen::all).array();
+            TReal_Batch kStress = UMeanXy(I4 + 1, Eigen::all) * (2. / 3.); //! k's normal stress
+            TReal_Batch vnMean = ((UMeanXy(Seq123, Eigen::all).array().rowwise() / UMeanXy(0, Eigen::all).array()) * unitNorm.array()).colwise().sum();
+            finc(Seq123, Eigen::all).array() += unitNorm.array().rowwise() * kStress.array();
+            finc(I4, Eigen::all).array() += kStress.array() * vnMean.array();
         }
 
 #ifndef DNDS_FV_EULEREVALUATOR_IGNORE_VISCOUS_TERM
-- 
2.43.0


From ac63ec91285e6f49a2dc68a19c6eef9852e33e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:18 +0000
Subject: [PATCH 46/52] fix: minWallDist was ignored by the wall distance
 schemes 2 and 20

The distances from the distributed search overwrote the clamped ones.
---
 src/Euler/EulerEvaluator_EvaluateDt.hxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Euler/EulerEvaluator_EvaluateDt.hxx b/src/Euler/EulerEvaluator_EvaluateDt.hxx
index 0fcc19c..0d1f8dc 100644
--- a/src/Euler/EulerEvaluator_EvaluateDt.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateDt.hxx
@@ -424,9 +424,11 @@ namespace DNDS::Euler
                             if (settings.wallDistScheme == 20)
                                 if (dWall[iCell][ig] > settings.wallDistRefineMax)
                                     continue;
-                            dWall[iCell][ig] = distQueryFullReduced.at(
-                                PntTransformer.pLGhostMapping->ghostStart.at(mesh->getMPI().rank) +
-                                iQLoad);
+                            dWall[iCell][ig] = std::max(
+                                settings.minWallDist,
+                                distQueryFullReduced.at(
+                                    PntTransformer.pLGhostMapping->ghostStart.at(mesh->getMPI().rank) +
+                                    iQLoad));
                             iQLoad++;
                         }
                     }
-- 
2.43.0


From 792278dfed264b4bb8c6b0d495f733d1c95a23ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:45 +0000
Subject: [PATCH 47/52] fix: refined wall distance search stopped at the first
 batch without near-wall points

Later cells kept the unrefined distance, depending on cell order, batch size and rank count.
---
 src/Euler/EulerEvaluator_EvaluateDt.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Euler/EulerEvaluator_EvaluateDt.hxx b/src/Euler/EulerEvaluator_EvaluateDt.hxx
index 0d1f8dc..f7cb996 100644
--- a/src/Euler/EulerEvaluator_EvaluateDt.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateDt.hxx
@@ -321,7 +321,9 @@ namespace DNDS::Euler
                 std::vector<index> pullingSet;
                 pullingSet.resize(PntTransformer.pLGlobalMapping->globalSize());
                 // std::cout << "Here1 " << iIter << std::endl;
-                if (!pullingSet.size())
+                index nCellRemain = mesh->NumCellProc() - iCellBase;
+                MPI::AllreduceOneIndex(nCellRemain, MPI_MAX, mesh->getMPI());
+                if (nCellRemain <= 0) // a batch with no points to query does not end the search
                     break;
                 if (mesh->getMPI().rank == 0)
                     log() << fmt::format("=== EulerEvaluator<model>::GetWallDist() iter [{}], nProcessed [{}], t [{:.6g}] ",
-- 
2.43.0


From 4cbf193a75c2e2a2af59fe351eafc104cec19145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:42 +0000
Subject: [PATCH 48/52] fix: SGS sweep with reconstruction increments reported
 only the rank's own change

---
 src/Euler/EulerEvaluator.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Euler/EulerEvaluator.hxx b/src/Euler/EulerEvaluator.hxx
index 367e7aa..8f1871e 100644
--- a/src/Euler/EulerEvaluator.hxx
+++ b/src/Euler/EulerEvaluator.hxx
@@ -665,6 +665,7 @@ namespace DNDS::Euler
         }
         TU sumIncAll(cnvars);
         MPI::Allreduce(sumInc.data(), sumIncAll.data(), sumInc.size(), DNDS_MPI_REAL, MPI_SUM, rhs.father->getMPI().comm);
+        sumInc = sumIncAll;
         DNDS_MPI_InsertCheck(u.father->getMPI(), "UpdateSGS -1");
     }
 
-- 
2.43.0


From bca423378b1461e3b5d0ed8434eda7fef27ef8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:46 +0000
Subject: [PATCH 49/52] fix: increment compression with relaxed eps could leave
 a zero or negative density

---
 src/Euler/EulerEvaluator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/EulerEvaluator.hpp b/src/Euler/EulerEvaluator.hpp
index 485324c..0829535 100644
--- a/src/Euler/EulerEvaluator.hpp
+++ b/src/Euler/EulerEvaluator.hpp
@@ -1093,7 +1093,7 @@ namespace DNDS::Euler
                 real declineV = ret(0) / (u(0) + verySmallReal);
                 real newrho = u(0) * std::exp(declineV);
                 // newrho = std::max(newrho, rhoEps);
-                newrho = rhoEps;
+                newrho = std::max(rhoEps, smallReal * u(0)); // a relaxed rhoEps is below the rounding of u(0)
                 ret *= (newrho - u(0)) / (ret(0) - verySmallReal);
                 // std::cout << (newrho - u(0)) / (ret(0) + verySmallReal) << std::endl;
                 // DNDS_assert(false);
-- 
2.43.0


From f5cb62a3541ff4c27a8984f9b087700a79950e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:46 +0000
Subject: [PATCH 50/52] fix: P=3 field norm summed the ranks' maxima and took
 their cube root

---
 src/Euler/EulerEvaluator.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/EulerEvaluator.hxx b/src/Euler/EulerEvaluator.hxx
index 8f1871e..97af305 100644
--- a/src/Euler/EulerEvaluator.hxx
+++ b/src/Euler/EulerEvaluator.hxx
@@ -1258,7 +1258,7 @@ namespace DNDS::Euler
             if (P < 3)
                 resc._v += rescCell;
         }
-        if (P > 3)
+        if (P >= 3)
             MPI::Allreduce(resc._v.data(), res.data(), res.size(), DNDS_MPI_REAL, MPI_MAX, u.father->getMPI().comm);
         else
         {
-- 
2.43.0


From 157fd9f7b9422990e2c2ba05d5d3aa2483ad6722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:46 +0000
Subject: [PATCH 51/52] fix: output field RV was the z momentum in 3-D, and
 RU_REC_1 the second coefficient of density

---
 src/Euler/EulerEvaluator_EvaluateDt.hxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Euler/EulerEvaluator_EvaluateDt.hxx b/src/Euler/EulerEvaluator_EvaluateDt.hxx
index f7cb996..97f40d4 100644
--- a/src/Euler/EulerEvaluator_EvaluateDt.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateDt.hxx
@@ -2023,14 +2023,15 @@ namespace DNDS::Euler
         { return u[iCell](1); };
         outMap["RV"] = [&](index iCell)
         { return u[iCell](2); };
-        outMap["RV"] = [&](index iCell)
-        { return u[iCell](I4 - 1); };
+        if constexpr (dim == 3)
+            outMap["RW"] = [&](index iCell)
+            { return u[iCell](3); };
         outMap["RE"] = [&](index iCell)
         { return u[iCell](I4); };
         outMap["R_REC_1"] = [&](index iCell)
         { return uRec[iCell](0, 0); };
         outMap["RU_REC_1"] = [&](index iCell)
-        { return uRec[iCell](1, 0); }; // TODO: to be continued to...
+        { return uRec[iCell](0, 1); }; // TODO: to be continued to...
 
         // pps:
         outMap["betaPP"] = [&](index iCell)
-- 
2.43.0


From 757a96162a1a591848591c4eeee0d0e82f24dbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:34 +0000
Subject: [PATCH 52/52] fix: positivity scaling of k and omega was applied to
 the whole reconstruction instead of its increment over the low-order part

---
 src/Euler/EulerEvaluator.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Euler/EulerEvaluator.hxx b/src/Euler/EulerEvaluator.hxx
index 97af305..07f8ed3 100644
--- a/src/Euler/EulerEvaluator.hxx
+++ b/src/Euler/EulerEvaluator.hxx
@@ -1489,7 +1489,10 @@ namespace DNDS::Euler
                 // theta1 = std::min(theta1, thetaC);
                 if (thetaC < 1) // 2eq's pp not disturbing main flow
                 {
-                    uRec[iCell](Eigen::all, {I4 + 1, I4 + 2}) *= thetaC * 0.9;
+                    // thetaC is the ratio of the increment over uRecBase
+                    uRec[iCell](Eigen::all, {I4 + 1, I4 + 2}) =
+                        (uRec[iCell] - uRecBase)(Eigen::all, {I4 + 1, I4 + 2}) * (thetaC * 0.9) +
+                        uRecBase(Eigen::all, {I4 + 1, I4 + 2});
                 }
             }
 
-- 
2.43.0

