/*
 * Stand-in for the PX4/Matrix library (header-only, not available offline).
 * Same names, signatures and semantics for the part of the API that PX4/ecl uses, so that
 * the front end can parse, resolve and type-check every translation unit of /repo.
 * Only the declarations matter to the analyses; the definitions let the project's own
 * gtests be run by hand against the shim (tools/dev_gtests.sh).
 */
#pragma once

#include <math.h>
#include <float.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>

#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif

namespace matrix
{

static constexpr double MATRIX_PI = 3.14159265358979323846;

template<typename Type, size_t M, size_t N> class Matrix;
template<typename Type, size_t M> class Vector;
template<typename Type> class Vector2;
template<typename Type> class Vector3;
template<typename Type, size_t M> class SquareMatrix;
template<typename Type> class Dcm;
template<typename Type> class Euler;
template<typename Type> class Quaternion;
template<typename Type> class AxisAngle;
template<typename Type, size_t P, size_t Q, size_t M, size_t N> class Slice;

template<typename Type> Type min(const Type x, const Type y) { bool ny = y != y; return (x < y) ? x : (ny ? x : y); }
template<typename Type> Type max(const Type x, const Type y) { bool ny = y != y; return (x > y) ? x : (ny ? x : y); }
template<typename Type> Type constrain(const Type x, const Type lower, const Type upper)
{
	if (lower > upper) { return (Type)NAN; }
	else if (!(x == x)) { return (Type)NAN; }
	else { return matrix::max(lower, matrix::min(upper, x)); }
}
template<typename T> int sign(T val) { return (T(0) < val) - (val < T(0)); }
template<typename Type> bool isEqualF(const Type x, const Type y, const Type eps = Type(1e-4f))
{
	return (fabs(x - y) <= eps) || (x != x && y != y) || (isinf(x) && isinf(y) && x == y);
}

template<typename Type, size_t P, size_t Q, size_t M, size_t N>
class Slice
{
public:
	Slice(size_t x0, size_t y0, const Matrix<Type, M, N> *data) : _x0(x0), _y0(y0), _data(const_cast<Matrix<Type, M, N> *>(data)) {}
	Slice(const Slice &other) = default;

	const Type &operator()(size_t i, size_t j) const { return (*_data)(_x0 + i, _y0 + j); }
	Type &operator()(size_t i, size_t j) { return (*_data)(_x0 + i, _y0 + j); }
	const Type &operator()(size_t i) const { return (Q == 1) ? (*_data)(_x0 + i, _y0) : (*_data)(_x0, _y0 + i); }
	Type &operator()(size_t i) { return (Q == 1) ? (*_data)(_x0 + i, _y0) : (*_data)(_x0, _y0 + i); }

	template<size_t MM, size_t NN>
	Slice &operator=(const Slice<Type, P, Q, MM, NN> &other)
	{
		Slice &self = *this;
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { self(i, j) = other(i, j); } }
		return self;
	}
	Slice &operator=(const Slice &other)
	{
		Slice &self = *this;
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { self(i, j) = other(i, j); } }
		return self;
	}
	Slice &operator=(const Matrix<Type, P, Q> &other)
	{
		Slice &self = *this;
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { self(i, j) = other(i, j); } }
		return self;
	}
	Slice &operator=(const Type &other)
	{
		Slice &self = *this;
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { self(i, j) = other; } }
		return self;
	}
	// row/column vectors can be assigned whatever their orientation
	template<size_t DUMMY = 1>
	Slice &operator=(const Vector<Type, P * Q> &other)
	{
		Slice &self = *this;
		for (size_t i = 0; i < P * Q; i++) { self(i) = other(i); }
		return self;
	}
	Slice &operator+=(const Matrix<Type, P, Q> &other)
	{
		Slice &self = *this;
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { self(i, j) += other(i, j); } }
		return self;
	}
	Slice &operator-=(const Matrix<Type, P, Q> &other)
	{
		Slice &self = *this;
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { self(i, j) -= other(i, j); } }
		return self;
	}
	Slice &operator+=(const Type &other)
	{
		Slice &self = *this;
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { self(i, j) += other; } }
		return self;
	}
	Slice &operator-=(const Type &other) { return operator+=(-other); }
	Slice &operator*=(const Type &other)
	{
		Slice &self = *this;
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { self(i, j) *= other; } }
		return self;
	}
	Slice &operator/=(const Type &other) { return operator*=(Type(1) / other); }
	Matrix<Type, P, Q> operator*(const Type &other) const { return Matrix<Type, P, Q>(*this) * other; }
	Matrix<Type, P, Q> operator/(const Type &other) const { return Matrix<Type, P, Q>(*this) / other; }
	Vector < Type, (P < Q ? P : Q) > diag() const
	{
		const Slice &self = *this;
		Vector < Type, (P < Q ? P : Q) > res;
		for (size_t i = 0; i < (P < Q ? P : Q); i++) { res(i) = self(i, i); }
		return res;
	}
	Type norm_squared() const
	{
		const Slice &self = *this;
		Type accum(0);
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { accum += self(i, j) * self(i, j); } }
		return accum;
	}
	Type norm() const { return Type(sqrt(norm_squared())); }
	bool longerThan(Type testVal) const { return norm_squared() > testVal * testVal; }
private:
	size_t _x0, _y0;
	Matrix<Type, M, N> *_data;
};

template<typename Type, size_t M, size_t N>
class Matrix
{
	Type _data[M][N] {};
public:
	Matrix() = default;
	explicit Matrix(const Type data_[M * N]) { for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] = data_[N * i + j]; } } }
	explicit Matrix(const Type data_[M][N]) { for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] = data_[i][j]; } } }
	Matrix(const Matrix &other) = default;
	Matrix &operator=(const Matrix &other) = default;
	template<size_t P, size_t Q>
	Matrix(const Slice<Type, M, N, P, Q> &in_slice)
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] = in_slice(i, j); } }
	}

	inline const Type &operator()(size_t i, size_t j) const { return _data[i][j]; }
	inline Type &operator()(size_t i, size_t j) { return _data[i][j]; }

	template<size_t P>
	Matrix<Type, M, P> operator*(const Matrix<Type, N, P> &other) const
	{
		const Matrix<Type, M, N> &self = *this;
		Matrix<Type, M, P> res{};
		for (size_t i = 0; i < M; i++) {
			for (size_t k = 0; k < P; k++) {
				for (size_t j = 0; j < N; j++) { res(i, k) += self(i, j) * other(j, k); }
			}
		}
		return res;
	}
	Matrix operator+(const Matrix &other) const
	{
		Matrix res;
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = (*this)(i, j) + other(i, j); } }
		return res;
	}
	Matrix operator-(const Matrix &other) const
	{
		Matrix res;
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = (*this)(i, j) - other(i, j); } }
		return res;
	}
	Matrix operator-() const
	{
		Matrix res;
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = -(*this)(i, j); } }
		return res;
	}
	Matrix emult(const Matrix &other) const
	{
		Matrix res;
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = (*this)(i, j) * other(i, j); } }
		return res;
	}
	Matrix edivide(const Matrix &other) const
	{
		Matrix res;
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = (*this)(i, j) / other(i, j); } }
		return res;
	}
	void operator+=(const Matrix &other) { for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { (*this)(i, j) += other(i, j); } } }
	void operator-=(const Matrix &other) { for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { (*this)(i, j) -= other(i, j); } } }
	Matrix operator*(Type scalar) const
	{
		Matrix res;
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = (*this)(i, j) * scalar; } }
		return res;
	}
	Matrix operator/(Type scalar) const { return (*this) * (Type(1) / scalar); }
	Matrix operator+(Type scalar) const
	{
		Matrix res;
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = (*this)(i, j) + scalar; } }
		return res;
	}
	Matrix operator-(Type scalar) const { return (*this) + (-1 * scalar); }
	void operator*=(Type scalar) { for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { (*this)(i, j) *= scalar; } } }
	void operator/=(Type scalar) { (*this) *= (Type(1) / scalar); }
	void operator+=(Type scalar) { *this = (*this) + scalar; }
	void operator-=(Type scalar) { *this = (*this) - scalar; }
	bool operator==(const Matrix &other) const
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { if (!isEqualF((*this)(i, j), other(i, j))) { return false; } } }
		return true;
	}
	bool operator!=(const Matrix &other) const { return !(*this == other); }

	void copyTo(Type dst[M * N]) const { memcpy(dst, _data, sizeof(Type) * M * N); }
	Matrix<Type, N, M> transpose() const
	{
		Matrix<Type, N, M> res;
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(j, i) = (*this)(i, j); } }
		return res;
	}
	inline Matrix<Type, N, M> T() const { return transpose(); }

	template<size_t P, size_t Q>
	const Slice<Type, P, Q, M, N> slice(size_t x0, size_t y0) const
	{
		static_assert(P <= M, "Slice rows bigger than backing matrix");
		static_assert(Q <= N, "Slice cols bigger than backing matrix");
		return {x0, y0, this};
	}
	template<size_t P, size_t Q>
	Slice<Type, P, Q, M, N> slice(size_t x0, size_t y0)
	{
		static_assert(P <= M, "Slice rows bigger than backing matrix");
		static_assert(Q <= N, "Slice cols bigger than backing matrix");
		return {x0, y0, this};
	}
	const Slice<Type, 1, N, M, N> row(size_t i) const { return slice<1, N>(i, 0); }
	Slice<Type, 1, N, M, N> row(size_t i) { return slice<1, N>(i, 0); }
	const Slice<Type, M, 1, M, N> col(size_t j) const { return slice<M, 1>(0, j); }
	Slice<Type, M, 1, M, N> col(size_t j) { return slice<M, 1>(0, j); }
	void setRow(size_t i, const Matrix<Type, N, 1> &row_in) { for (size_t j = 0; j < N; j++) { (*this)(i, j) = row_in(j, 0); } }
	void setRow(size_t i, Type val) { for (size_t j = 0; j < N; j++) { (*this)(i, j) = val; } }
	void setCol(size_t j, const Matrix<Type, M, 1> &column) { for (size_t i = 0; i < M; i++) { (*this)(i, j) = column(i, 0); } }
	void setCol(size_t j, Type val) { for (size_t i = 0; i < M; i++) { (*this)(i, j) = val; } }
	void setZero() { memset(_data, 0, sizeof(_data)); }
	void zero() { setZero(); }
	void setAll(Type val) { for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { (*this)(i, j) = val; } } }
	void setOne() { setAll(1); }
	void setIdentity() { setZero(); for (size_t i = 0; i < (M < N ? M : N); i++) { (*this)(i, i) = 1; } }
	void identity() { setIdentity(); }
	Matrix abs() const
	{
		Matrix r;
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { r(i, j) = Type(fabs((*this)(i, j))); } }
		return r;
	}
	Type max() const
	{
		Type m = (*this)(0, 0);
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { if ((*this)(i, j) > m) { m = (*this)(i, j); } } }
		return m;
	}
	Type min() const
	{
		Type m = (*this)(0, 0);
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { if ((*this)(i, j) < m) { m = (*this)(i, j); } } }
		return m;
	}
	bool isAllNan() const
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { if (!isnan((*this)(i, j))) { return false; } } }
		return true;
	}
};

template<typename Type, size_t M, size_t N>
Matrix<Type, M, N> operator*(Type scalar, const Matrix<Type, M, N> &other) { return other * scalar; }

template<typename Type, size_t M, size_t N>
bool isEqual(const Matrix<Type, M, N> &x, const Matrix<Type, M, N> &y, const Type eps = Type(1e-4f))
{
	for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { if (!isEqualF(x(i, j), y(i, j), eps)) { return false; } } }
	return true;
}

template<typename Type, size_t M, size_t N>
Matrix<Type, M, N> constrain(const Matrix<Type, M, N> &x, const Type scalar_lower_bound, const Type scalar_upper_bound)
{
	Matrix<Type, M, N> m;
	if (scalar_lower_bound > scalar_upper_bound) { m.setAll((Type)NAN); }
	else { for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { m(i, j) = matrix::constrain(x(i, j), scalar_lower_bound, scalar_upper_bound); } } }
	return m;
}
template<typename Type, size_t M, size_t N>
Matrix<Type, M, N> constrain(const Matrix<Type, M, N> &x, const Matrix<Type, M, N> &x_lower, const Matrix<Type, M, N> &x_upper)
{
	Matrix<Type, M, N> m;
	for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { m(i, j) = matrix::constrain(x(i, j), x_lower(i, j), x_upper(i, j)); } }
	return m;
}
template<typename Type, size_t M, size_t N>
Matrix<Type, M, N> max(const Matrix<Type, M, N> &x, const Type lower)
{
	Matrix<Type, M, N> m;
	for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { m(i, j) = matrix::max(x(i, j), lower); } }
	return m;
}
template<typename Type, size_t M, size_t N>
Matrix<Type, M, N> min(const Matrix<Type, M, N> &x, const Type upper)
{
	Matrix<Type, M, N> m;
	for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { m(i, j) = matrix::min(x(i, j), upper); } }
	return m;
}

template<typename Type, size_t M>
class Vector : public Matrix<Type, M, 1>
{
public:
	using MatrixM1 = Matrix<Type, M, 1>;
	Vector() = default;
	Vector(const MatrixM1 &other) : MatrixM1(other) {}
	Vector(const Vector &other) = default;
	Vector &operator=(const Vector &other) = default;
	explicit Vector(const Type data_[M]) : MatrixM1(data_) {}
	template<size_t P, size_t Q>
	Vector(const Slice<Type, M, 1, P, Q> &slice_in) : MatrixM1(slice_in) {}
	template<size_t P, size_t Q, size_t DUMMY = 1>
	Vector(const Slice<Type, 1, M, P, Q> &slice_in) { for (size_t i = 0; i < M; i++) { (*this)(i) = slice_in(0, i); } }

	using MatrixM1::operator();
	inline const Type &operator()(size_t i) const { return MatrixM1::operator()(i, 0); }
	inline Type &operator()(size_t i) { return MatrixM1::operator()(i, 0); }

	Type dot(const MatrixM1 &b) const { Type r(0); for (size_t i = 0; i < M; i++) { r += (*this)(i) * b(i, 0); } return r; }
	using MatrixM1::operator*;
	inline Type operator*(const MatrixM1 &b) const { return dot(b); }
	inline Vector operator*(Type b) const { return Vector(MatrixM1::operator*(b)); }
	Type norm() const { return Type(sqrt(dot(*this))); }
	Type norm_squared() const { return dot(*this); }
	inline Type length() const { return norm(); }
	inline void normalize() { (*this) /= norm(); }
	Vector unit() const { return (*this) / norm(); }
	Vector unit_or_zero(const Type eps = Type(1e-5)) const { const Type n = norm(); if (n > eps) { return (*this) / n; } return Vector(); }
	inline Vector normalized() const { return unit(); }
	bool longerThan(Type testVal) const { return norm_squared() > testVal * testVal; }
};

template<typename Type>
class Vector2 : public Vector<Type, 2>
{
public:
	using Matrix21 = Matrix<Type, 2, 1>;
	Vector2() = default;
	Vector2(const Matrix21 &other) : Vector<Type, 2>(other) {}
	Vector2(const Vector2 &other) = default;
	Vector2 &operator=(const Vector2 &other) = default;
	explicit Vector2(const Type data_[2]) : Vector<Type, 2>(data_) {}
	Vector2(Type x, Type y) { (*this)(0) = x; (*this)(1) = y; }
	template<size_t P, size_t Q> Vector2(const Slice<Type, 2, 1, P, Q> &s) : Vector<Type, 2>(s) {}
	template<size_t P, size_t Q, size_t D = 1> Vector2(const Slice<Type, 1, 2, P, Q> &s) : Vector<Type, 2>(s) {}
	explicit Vector2(const Vector3<Type> &other) { (*this)(0) = other(0); (*this)(1) = other(1); }
	Type cross(const Matrix21 &b) const { return (*this)(0) * b(1, 0) - (*this)(1) * b(0, 0); }
	Type operator%(const Matrix21 &b) const { return cross(b); }
};

template<typename Type>
class Vector3 : public Vector<Type, 3>
{
public:
	using Matrix31 = Matrix<Type, 3, 1>;
	Vector3() = default;
	Vector3(const Matrix31 &other) : Vector<Type, 3>(other) {}
	Vector3(const Vector3 &other) = default;
	Vector3 &operator=(const Vector3 &other) = default;
	explicit Vector3(const Type data_[3]) : Vector<Type, 3>(data_) {}
	Vector3(Type x, Type y, Type z) { (*this)(0) = x; (*this)(1) = y; (*this)(2) = z; }
	template<size_t P, size_t Q> Vector3(const Slice<Type, 3, 1, P, Q> &s) : Vector<Type, 3>(s) {}
	template<size_t P, size_t Q, size_t D = 1> Vector3(const Slice<Type, 1, 3, P, Q> &s) : Vector<Type, 3>(s) {}

	Vector3 cross(const Matrix31 &b) const
	{
		const Vector3 &a(*this);
		return {a(1) *b(2, 0) - a(2) *b(1, 0), -a(0) *b(2, 0) + a(2) *b(0, 0), a(0) *b(1, 0) - a(1) *b(0, 0)};
	}
	inline Vector3 operator+(Vector3 other) const { return Matrix31::operator+(other); }
	inline Vector3 operator+(Type scalar) const { return Matrix31::operator+(scalar); }
	inline Vector3 operator-(Vector3 other) const { return Matrix31::operator-(other); }
	inline Vector3 operator-(Type scalar) const { return Matrix31::operator-(scalar); }
	inline Vector3 operator-() const { return Matrix31::operator-(); }
	inline Vector3 operator*(Type scalar) const { return Matrix31::operator*(scalar); }
	inline Type operator*(Vector3 b) const { return Vector<Type, 3>::operator*(b); }
	inline Vector3 operator%(const Matrix31 &b) const { return (*this).cross(b); }
	const Slice<Type, 2, 1, 3, 1> xy() const { return Matrix31::template slice<2, 1>(0, 0); }
	Slice<Type, 2, 1, 3, 1> xy() { return Matrix31::template slice<2, 1>(0, 0); }
	Vector3 unit() const { return Vector3(Vector<Type, 3>::unit()); }
	inline Vector3 normalized() const { return unit(); }
};
template<typename Type>
Vector3<Type> operator*(Type scalar, const Vector3<Type> &other) { return other * scalar; }

template<typename Type, size_t M>
class SquareMatrix : public Matrix<Type, M, M>
{
public:
	using MatrixMM = Matrix<Type, M, M>;
	SquareMatrix() = default;
	explicit SquareMatrix(const Type data_[M][M]) : MatrixMM(data_) {}
	explicit SquareMatrix(const Type data_[M * M]) : MatrixMM(data_) {}
	SquareMatrix(const MatrixMM &other) : MatrixMM(other) {}
	SquareMatrix(const SquareMatrix &other) = default;
	SquareMatrix &operator=(const SquareMatrix &other) = default;
	template<size_t P, size_t Q> SquareMatrix(const Slice<Type, M, M, P, Q> &in_slice) : MatrixMM(in_slice) {}

	Vector<Type, M> diag() const { Vector<Type, M> res; for (size_t i = 0; i < M; i++) { res(i) = (*this)(i, i); } return res; }
	Type trace() const { Type r(0); for (size_t i = 0; i < M; i++) { r += (*this)(i, i); } return r; }

	// zero all offdiagonal elements and keep corresponding diagonal elements
	template <size_t Width>
	void uncorrelateCovariance(size_t first)
	{
		static_assert(Width <= M, "Width bigger than matrix");
		SquareMatrix &self = *this;
		Vector<Type, Width> diag_elements = self.template slice<Width, Width>(first, first).diag();
		self.uncorrelateCovarianceSetVariance(first, diag_elements);
	}
	template <size_t Width>
	void uncorrelateCovarianceSetVariance(size_t first, const Vector<Type, Width> &vec)
	{
		static_assert(Width <= M, "Width bigger than matrix");
		SquareMatrix &self = *this;
		self.template slice<Width, M>(first, 0) = Type(0);
		self.template slice<M, Width>(0, first) = Type(0);
		for (size_t i = 0; i < Width; i++) { self(first + i, first + i) = vec(i); }
	}
	template <size_t Width>
	void uncorrelateCovarianceSetVariance(size_t first, Type val)
	{
		static_assert(Width <= M, "Width bigger than matrix");
		SquareMatrix &self = *this;
		self.template slice<Width, M>(first, 0) = Type(0);
		self.template slice<M, Width>(0, first) = Type(0);
		for (size_t i = first; i < first + Width; i++) { self(i, i) = val; }
	}
	// make block diagonal symmetric by taking the average of the two corresponding off diagonal values
	template <size_t Width>
	void makeBlockSymmetric(size_t first)
	{
		SquareMatrix &self = *this;
		for (size_t row_idx = first + 1; row_idx < first + Width; row_idx++) {
			for (size_t col_idx = first; col_idx < row_idx; col_idx++) {
				Type tmp = (self(row_idx, col_idx) + self(col_idx, row_idx)) / Type(2);
				self(row_idx, col_idx) = tmp;
				self(col_idx, row_idx) = tmp;
			}
		}
	}
	// make rows and columns symmetric by taking the average of the two corresponding off diagonal values
	template <size_t Width>
	void makeRowColSymmetric(size_t first)
	{
		SquareMatrix &self = *this;
		self.template makeBlockSymmetric<Width>(first);
		for (size_t row_idx = first; row_idx < first + Width; row_idx++) {
			for (size_t col_idx = 0; col_idx < first; col_idx++) {
				Type tmp = (self(row_idx, col_idx) + self(col_idx, row_idx)) / Type(2);
				self(row_idx, col_idx) = tmp;
				self(col_idx, row_idx) = tmp;
			}
			for (size_t col_idx = first + Width; col_idx < M; col_idx++) {
				Type tmp = (self(row_idx, col_idx) + self(col_idx, row_idx)) / Type(2);
				self(row_idx, col_idx) = tmp;
				self(col_idx, row_idx) = tmp;
			}
		}
	}
};
using SquareMatrix3f = SquareMatrix<float, 3>;

template<typename Type, size_t M>
SquareMatrix<Type, M> eye() { SquareMatrix<Type, M> m; m.setIdentity(); return m; }
template<typename Type, size_t M>
SquareMatrix<Type, M> diag(Vector<Type, M> d) { SquareMatrix<Type, M> m; for (size_t i = 0; i < M; i++) { m(i, i) = d(i); } return m; }

template<typename Type>
class Dcm : public SquareMatrix<Type, 3>
{
public:
	using Matrix33 = Matrix<Type, 3, 3>;
	Dcm() { (*this).setIdentity(); }
	explicit Dcm(const Type data_[3][3]) : SquareMatrix<Type, 3>(data_) {}
	Dcm(const Matrix33 &other) : SquareMatrix<Type, 3>(other) {}
	Dcm(const Dcm &other) = default;
	Dcm &operator=(const Dcm &other) = default;
	Dcm(const Quaternion<Type> &q)
	{
		Dcm &dcm = *this;
		const Type a = q(0), b = q(1), c = q(2), d = q(3);
		const Type aa = a * a, ab = a * b, ac = a * c, ad = a * d, bb = b * b, bc = b * c, bd = b * d, cc = c * c, cd = c * d, dd = d * d;
		dcm(0, 0) = aa + bb - cc - dd; dcm(0, 1) = Type(2) * (bc - ad); dcm(0, 2) = Type(2) * (ac + bd);
		dcm(1, 0) = Type(2) * (bc + ad); dcm(1, 1) = aa - bb + cc - dd; dcm(1, 2) = Type(2) * (cd - ab);
		dcm(2, 0) = Type(2) * (bd - ac); dcm(2, 1) = Type(2) * (ab + cd); dcm(2, 2) = aa - bb - cc + dd;
	}
	Dcm(const Euler<Type> &euler)
	{
		Dcm &dcm = *this;
		Type cosPhi = Type(cos(euler.phi())), sinPhi = Type(sin(euler.phi())), cosThe = Type(cos(euler.theta()));
		Type sinThe = Type(sin(euler.theta())), cosPsi = Type(cos(euler.psi())), sinPsi = Type(sin(euler.psi()));
		dcm(0, 0) = cosThe * cosPsi; dcm(0, 1) = -cosPhi * sinPsi + sinPhi * sinThe * cosPsi; dcm(0, 2) = sinPhi * sinPsi + cosPhi * sinThe * cosPsi;
		dcm(1, 0) = cosThe * sinPsi; dcm(1, 1) = cosPhi * cosPsi + sinPhi * sinThe * sinPsi; dcm(1, 2) = -sinPhi * cosPsi + cosPhi * sinThe * sinPsi;
		dcm(2, 0) = -sinThe; dcm(2, 1) = sinPhi * cosThe; dcm(2, 2) = cosPhi * cosThe;
	}
	Dcm(const AxisAngle<Type> &aa) { *this = Quaternion<Type>(aa); }
};

template<typename Type>
class Euler : public Vector<Type, 3>
{
public:
	Euler() = default;
	Euler(const Vector<Type, 3> &other) : Vector<Type, 3>(other) {}
	Euler(const Matrix<Type, 3, 1> &other) : Vector<Type, 3>(other) {}
	Euler(Type phi_, Type theta_, Type psi_) { (*this)(0) = phi_; (*this)(1) = theta_; (*this)(2) = psi_; }
	Euler(const Dcm<Type> &dcm)
	{
		(*this)(1) = Type(asin(-dcm(2, 0)));
		if ((Type(fabs((*this)(1) - Type(MATRIX_PI / 2)))) < Type(1.0e-3)) {
			(*this)(0) = 0;
			(*this)(2) = Type(atan2(dcm(1, 2), dcm(0, 2)));
		} else if ((Type(fabs((*this)(1) + Type(MATRIX_PI / 2)))) < Type(1.0e-3)) {
			(*this)(0) = 0;
			(*this)(2) = Type(atan2(-dcm(1, 2), -dcm(0, 2)));
		} else {
			(*this)(0) = Type(atan2(dcm(2, 1), dcm(2, 2)));
			(*this)(2) = Type(atan2(dcm(1, 0), dcm(0, 0)));
		}
	}
	Euler(const Quaternion<Type> &q) : Vector<Type, 3>(Euler(Dcm<Type>(q))) {}
	inline Type phi() const { return (*this)(0); }
	inline Type theta() const { return (*this)(1); }
	inline Type psi() const { return (*this)(2); }
	inline Type &phi() { return (*this)(0); }
	inline Type &theta() { return (*this)(1); }
	inline Type &psi() { return (*this)(2); }
};

template<typename Type>
class Quaternion : public Vector<Type, 4>
{
public:
	using Matrix41 = Matrix<Type, 4, 1>;
	explicit Quaternion(const Type data_[4]) : Vector<Type, 4>(data_) {}
	Quaternion() { (*this)(0) = 1; (*this)(1) = 0; (*this)(2) = 0; (*this)(3) = 0; }
	Quaternion(const Matrix41 &other) : Vector<Type, 4>(other) {}
	Quaternion(const Quaternion &other) = default;
	Quaternion &operator=(const Quaternion &other) = default;
	Quaternion(const Dcm<Type> &R)
	{
		Quaternion &q = *this;
		Type t = R.trace();
		if (t > Type(0)) {
			t = Type(sqrt(Type(1) + t));
			q(0) = Type(0.5) * t; t = Type(0.5) / t;
			q(1) = (R(2, 1) - R(1, 2)) * t; q(2) = (R(0, 2) - R(2, 0)) * t; q(3) = (R(1, 0) - R(0, 1)) * t;
		} else if (R(0, 0) > R(1, 1) && R(0, 0) > R(2, 2)) {
			t = Type(sqrt(Type(1) + R(0, 0) - R(1, 1) - R(2, 2)));
			q(1) = Type(0.5) * t; t = Type(0.5) / t;
			q(0) = (R(2, 1) - R(1, 2)) * t; q(2) = (R(1, 0) + R(0, 1)) * t; q(3) = (R(0, 2) + R(2, 0)) * t;
		} else if (R(1, 1) > R(2, 2)) {
			t = Type(sqrt(Type(1) - R(0, 0) + R(1, 1) - R(2, 2)));
			q(2) = Type(0.5) * t; t = Type(0.5) / t;
			q(0) = (R(0, 2) - R(2, 0)) * t; q(1) = (R(1, 0) + R(0, 1)) * t; q(3) = (R(2, 1) + R(1, 2)) * t;
		} else {
			t = Type(sqrt(Type(1) - R(0, 0) - R(1, 1) + R(2, 2)));
			q(3) = Type(0.5) * t; t = Type(0.5) / t;
			q(0) = (R(1, 0) - R(0, 1)) * t; q(1) = (R(0, 2) + R(2, 0)) * t; q(2) = (R(2, 1) + R(1, 2)) * t;
		}
	}
	Quaternion(const Euler<Type> &euler)
	{
		Quaternion &q = *this;
		Type c1 = Type(cos(euler.phi() / Type(2))), c2 = Type(cos(euler.theta() / Type(2))), c3 = Type(cos(euler.psi() / Type(2)));
		Type s1 = Type(sin(euler.phi() / Type(2))), s2 = Type(sin(euler.theta() / Type(2))), s3 = Type(sin(euler.psi() / Type(2)));
		q(0) = c1 * c2 * c3 + s1 * s2 * s3; q(1) = s1 * c2 * c3 - c1 * s2 * s3;
		q(2) = c1 * s2 * c3 + s1 * c2 * s3; q(3) = c1 * c2 * s3 - s1 * s2 * c3;
	}
	Quaternion(const AxisAngle<Type> &aa)
	{
		Quaternion &q = *this;
		Type a = aa.angle();
		Vector<Type, 3> axis = aa.axis();
		if (a < Type(1e-10)) { q(0) = Type(1); q(1) = q(2) = q(3) = 0; }
		else { Type mag = Type(sin(a / Type(2))); q(0) = Type(cos(a / Type(2))); q(1) = axis(0) * mag; q(2) = axis(1) * mag; q(3) = axis(2) * mag; }
	}
	Quaternion(Type a, Type b, Type c, Type d) { (*this)(0) = a; (*this)(1) = b; (*this)(2) = c; (*this)(3) = d; }
	using Vector<Type, 4>::operator*;
	Quaternion operator*(const Quaternion &p) const
	{
		const Quaternion &q = *this;
		return {
			q(0) *p(0) - q(1) *p(1) - q(2) *p(2) - q(3) *p(3), q(0) *p(1) + q(1) *p(0) + q(2) *p(3) - q(3) *p(2),
			q(0) *p(2) - q(1) *p(3) + q(2) *p(0) + q(3) *p(1), q(0) *p(3) + q(1) *p(2) - q(2) *p(1) + q(3) *p(0)};
	}
	void operator*=(const Quaternion &other) { *this = *this * other; }
	Quaternion operator*(Type scalar) const { Quaternion r; for (size_t i = 0; i < 4; i++) { r(i) = (*this)(i) * scalar; } return r; }
	Quaternion inversed() const
	{
		const Quaternion &q = *this;
		Type s = this->norm_squared();
		return Quaternion{q(0) / s, -q(1) / s, -q(2) / s, -q(3) / s};
	}
	void invert() { *this = this->inversed(); }
	Quaternion canonical() const
	{
		const Quaternion &q = *this;
		for (size_t i = 0; i < 4; i++) { if (fabs(q(i)) > Type(1e-5)) { return q * Type(matrix::sign(q(i))); } }
		return q;
	}
	void canonicalize() { *this = canonical(); }
	Quaternion normalized() const { Quaternion r(*this); r.normalize(); return r; }
};

template<typename Type>
class AxisAngle : public Vector<Type, 3>
{
public:
	using Matrix31 = Matrix<Type, 3, 1>;
	AxisAngle() = default;
	AxisAngle(const Matrix31 &other) : Vector<Type, 3>(other) {}
	AxisAngle(const Quaternion<Type> &q)
	{
		AxisAngle &v = *this;
		Type mag = Type(sqrt(q(1) * q(1) + q(2) * q(2) + q(3) * q(3)));
		if (fabs(mag) >= Type(1e-10)) {
			mag = mag / Type(2) * Type(0) + Type(2) * Type(atan2(mag, q(0))) / mag;
			v(0) = q(1) * mag; v(1) = q(2) * mag; v(2) = q(3) * mag;
		} else { v(0) = Type(2) * q(1) * Type(sign(q(0))); v(1) = Type(2) * q(2) * Type(sign(q(0))); v(2) = Type(2) * q(3) * Type(sign(q(0))); }
	}
	AxisAngle(const Dcm<Type> &dcm) : AxisAngle(Quaternion<Type>(dcm)) {}
	AxisAngle(Type x, Type y, Type z) { (*this)(0) = x; (*this)(1) = y; (*this)(2) = z; }
	AxisAngle(const Matrix31 &axis_, Type angle_) { Vector<Type, 3> a(axis_); a.normalize(); for (size_t i = 0; i < 3; i++) { (*this)(i) = a(i) * angle_; } }
	Vector<Type, 3> axis() const { if (Vector<Type, 3>::norm() > 0) { return Vector<Type, 3>::unit(); } else { return Vector3<Type>(1, 0, 0); } }
	Type angle() const { return Vector<Type, 3>::norm(); }
};

template<int N> struct force_constexpr_eval { static const int value = N; };

// Vector that only stores nonzero elements, which indices are specified as parameter pack
template<typename Type, size_t M, size_t... Idxs>
class SparseVector
{
	static constexpr size_t N = sizeof...(Idxs);
	static constexpr size_t _indices[N] {Idxs...};
	Type _data[N] {};

	static constexpr int findCompressedIndex(size_t index)
	{
		int compressedIndex = -1;
		for (size_t i = 0; i < N; i++) { if (index == _indices[i]) { compressedIndex = static_cast<int>(i); } }
		return compressedIndex;
	}
public:
	static constexpr size_t non_zeros() { return N; }
	constexpr size_t index(size_t i) const { return SparseVector::_indices[i]; }
	SparseVector() = default;
	explicit SparseVector(const Vector<Type, M> &data) { for (size_t i = 0; i < N; i++) { _data[i] = data(_indices[i]); } }

	template<size_t i> inline Type at() const
	{
		static constexpr int compressed_index = force_constexpr_eval<findCompressedIndex(i)>::value;
		static_assert(compressed_index >= 0, "cannot access unpopulated indices");
		return _data[compressed_index];
	}
	template<size_t i> inline Type &at()
	{
		static constexpr int compressed_index = force_constexpr_eval<findCompressedIndex(i)>::value;
		static_assert(compressed_index >= 0, "cannot access unpopulated indices");
		return _data[compressed_index];
	}
	inline Type atCompressedIndex(size_t i) const { return _data[i]; }
	inline Type &atCompressedIndex(size_t i) { return _data[i]; }
	void setZero() { for (size_t i = 0; i < N; i++) { _data[i] = Type(0); } }
	Type dot(const Vector<Type, M> &other) const { Type accum(0); for (size_t i = 0; i < N; i++) { accum += _data[i] * other(_indices[i]); } return accum; }
	Type norm_squared() const { Type accum(0); for (size_t i = 0; i < N; i++) { accum += _data[i] * _data[i]; } return accum; }
	Type norm() const { return Type(sqrt(norm_squared())); }
	bool longerThan(Type testVal) const { return norm_squared() > testVal * testVal; }
};
template<typename Type, size_t M, size_t... Idxs>
constexpr size_t SparseVector<Type, M, Idxs...>::_indices[SparseVector<Type, M, Idxs...>::N];

template<size_t M, size_t... Idxs>
using SparseVectorf = SparseVector<float, M, Idxs...>;

template<typename Floating>
Floating wrap_floating(Floating x, Floating low, Floating high)
{
	if (low <= x && x < high) { return x; }
	const auto range = high - low;
	const auto inv_range = Floating(1) / range;
	const auto num_wraps = floor((x - low) * inv_range);
	return x - range * num_wraps;
}
inline float wrap(float x, float low, float high) { return matrix::wrap_floating(x, low, high); }
inline double wrap(double x, double low, double high) { return matrix::wrap_floating(x, low, high); }
template<typename Type> Type wrap_pi(Type x) { return wrap(x, Type(-MATRIX_PI), Type(MATRIX_PI)); }
template<typename Type> Type wrap_2pi(Type x) { return wrap(x, Type(0), Type(2 * MATRIX_PI)); }

using Vector2f = Vector2<float>;
using Vector3f = Vector3<float>;
using Matrix3f = SquareMatrix<float, 3>;
using Dcmf = Dcm<float>;
using Eulerf = Euler<float>;
using Quatf = Quaternion<float>;
using AxisAnglef = AxisAngle<float>;

template<typename OStream, typename Type, size_t M, size_t N>
OStream &operator<<(OStream &os, const matrix::Matrix<Type, M, N> &m)
{
	os << "\n";
	for (size_t i = 0; i < M; ++i) { os << "["; for (size_t j = 0; j < N; ++j) { os << m(i, j) << "\t"; } os << "]\n"; }
	return os;
}

} // namespace matrix
