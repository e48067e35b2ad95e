Scalar* begin() { return data(); }
Scalar const* begin() const { return data(); }
Scalar* end() { return data() + this->size(); }
Scalar const* end() const { return data() + this->size(); }
