import { merge } from './lodash'; export default merge;
