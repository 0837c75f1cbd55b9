// the environment of the rail functions, set before the code under test is loaded
Object.assign(process.env, {
  AWS_LAMBDA_FUNCTION_NAME: "fn", AWS_EXECUTION_ENV: "env-rt", AWS_REGION: "eu-west-1", SECRET_ID: "the-secret",
  DB_USER: "user", DB_PASS: "pass", DB_URI: "the-database", DB_APPLICATION: "rail",
  ROSM_SQS_URL: "rosm", SM_SQS_URL: "sm", UDOT_SQS_URL: "udot", DLQ_URL: "dlq", SQS_DLQ_BUCKET_NAME: "letters",
});
