// The part of the AWS SDK for C++ that mlio uses, over a simulated service.
#pragma once
#include <cstddef>
#include <cstdint>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace Aws {
using String = std::string;
using IOStream = std::iostream;
template <class T> using Vector = std::vector<T>;
struct SDKOptions {};
void InitAPI(const SDKOptions &);
void ShutdownAPI(const SDKOptions &);

namespace Auth {
class AWSCredentials {
public:
    AWSCredentials() = default;
    AWSCredentials(String id, String secret, String session = {}) : id_{std::move(id)}, secret_{std::move(secret)}, session_{std::move(session)} {}
    const String &GetAWSAccessKeyId() const { return id_; }
    const String &GetAWSSecretKey() const { return secret_; }
    const String &GetSessionToken() const { return session_; }
private:
    String id_, secret_, session_;
};
class DefaultAWSCredentialsProviderChain {
public:
    DefaultAWSCredentialsProviderChain();
    virtual ~DefaultAWSCredentialsProviderChain() = default;
    virtual AWSCredentials GetAWSCredentials();
};
}  // namespace Auth

namespace Http {
enum class Scheme { HTTP, HTTPS };
}
namespace Client {
struct ClientConfiguration {
    ClientConfiguration() = default;
    explicit ClientConfiguration(const char *profile) : profileName{profile} {}
    String region = "us-east-1";
    String profileName;
    Http::Scheme scheme = Http::Scheme::HTTPS;
};
template <class E> class AWSError {
public:
    AWSError() = default;
    explicit AWSError(E e) : e_{e} {}
    E GetErrorType() const { return e_; }
private:
    E e_{};
};
}  // namespace Client
namespace Utils {
template <class R, class E> class Outcome {
public:
    Outcome(R r) : r_{std::move(r)}, ok_{true} {}
    Outcome(E e) : e_{std::move(e)} {}
    bool IsSuccess() const { return ok_; }
    const R &GetResult() const { return r_; }
    R &GetResult() { return r_; }
    const E &GetError() const { return e_; }
private:
    R r_{};
    E e_{};
    bool ok_ = false;
};
}  // namespace Utils

namespace S3 {
enum class S3Errors {
    INCOMPLETE_SIGNATURE, INTERNAL_FAILURE, INVALID_ACTION, ACCESS_DENIED, RESOURCE_NOT_FOUND, THROTTLING, VALIDATION,
    SLOW_DOWN, REQUEST_TIMEOUT, NETWORK_CONNECTION, UNKNOWN, BUCKET_ALREADY_EXISTS, NO_SUCH_BUCKET, NO_SUCH_KEY, NO_SUCH_UPLOAD, SERVICE_UNAVAILABLE
};
namespace Model {
class Object {
public:
    explicit Object(String key) : key_{std::move(key)} {}
    const String &GetKey() const { return key_; }
private:
    String key_;
};
class ListObjectsV2Request {
public:
    void SetBucket(String v) { bucket = std::move(v); }
    void SetPrefix(String v) { prefix = std::move(v); }
    void SetMaxKeys(int v) { max_keys = v; }
    void SetContinuationToken(String v) { token = std::move(v); }
    String bucket, prefix, token;
    int max_keys = 1000;
};
class ListObjectsV2Result {
public:
    const Vector<Object> &GetContents() const { return contents; }
    bool GetIsTruncated() const { return truncated; }
    const String &GetNextContinuationToken() const { return token; }
    Vector<Object> contents;
    bool truncated = false;
    String token;
};
class GetObjectRequest {
public:
    void SetBucket(String v) { bucket = std::move(v); }
    void SetKey(String v) { key = std::move(v); }
    void SetRange(String v) { range = std::move(v); }
    void SetVersionId(String v) { version = std::move(v); }
    String bucket, key, range, version;
};
class GetObjectResult {
public:
    IOStream &GetBody() const { return *body; }
    std::unique_ptr<std::stringstream> body = std::make_unique<std::stringstream>();
};
class HeadObjectRequest {
public:
    void SetBucket(String v) { bucket = std::move(v); }
    void SetKey(String v) { key = std::move(v); }
    void SetVersionId(String v) { version = std::move(v); }
    String bucket, key, version;
};
class HeadObjectResult {
public:
    long long GetContentLength() const { return size; }
    long long size = 0;
};
using ListObjectsV2Outcome = Utils::Outcome<ListObjectsV2Result, Client::AWSError<S3Errors>>;
using GetObjectOutcome = Utils::Outcome<GetObjectResult, Client::AWSError<S3Errors>>;
using HeadObjectOutcome = Utils::Outcome<HeadObjectResult, Client::AWSError<S3Errors>>;
}  // namespace Model

class S3Client {
public:
    S3Client(const Auth::AWSCredentials &cred, const Client::ClientConfiguration &conf);
    virtual ~S3Client();
    virtual Model::ListObjectsV2Outcome ListObjectsV2(const Model::ListObjectsV2Request &) const;
    virtual Model::GetObjectOutcome GetObject(const Model::GetObjectRequest &) const;
    virtual Model::HeadObjectOutcome HeadObject(const Model::HeadObjectRequest &) const;
    Auth::AWSCredentials credentials;
    Client::ClientConfiguration configuration;
};
}  // namespace S3
}  // namespace Aws
